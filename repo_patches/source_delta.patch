From 6ea1d7bac120bbe449740a8ac98edc5496f04b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 01/52] fix: keep accepting and non-accepting DFA states apart
 during minimization

---
 src/core/DFA.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/DFA.hpp b/src/core/DFA.hpp
index 1124e3b..0112deb 100644
--- a/src/core/DFA.hpp
+++ b/src/core/DFA.hpp
@@ -18,7 +18,6 @@ public:
 	using NFABaseState<TCHAR, IndexVector>::get_transitions;
 	using NFABaseState<TCHAR, IndexVector>::m_transitions;
     using NFABaseState<TCHAR, IndexVector>::hash;
-    using NFABaseState<TCHAR, IndexVector>::operator==;
     using NFABaseState<TCHAR, IndexVector>::sort;
 	DFAState(const IndexVector& label, bool long_flag = false)
 		: NFABaseState<TCHAR, IndexVector>(label), m_long(long_flag), m_accept(false) {}
@@ -53,6 +52,10 @@ public:
 	{
 		return m_accept;
 	}
+    bool operator==(const DFAState<TCHAR>& s) const
+    {
+        return m_accept == s.m_accept && NFABaseState<TCHAR, IndexVector>::operator==(s);
+    }
 };
 
 template<typename TCHAR> class DFA : public NFABase<DFAState<TCHAR> >
-- 
2.43.0


From f9ade32629b662952930e12b4b2a0d41201f3f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 02/52] fix: keep the ranges of a character class sorted when a
 range is added

---
 src/core/CharClass.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index b7bccd8..1e8801e 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -126,7 +126,7 @@ public:
     {
         for (wchar_t ch : ch_list)
         {
-            m_ranges.push_back(Range<TCHAR>(ch, ch + 1));
+            *this |= Range<TCHAR>(ch, ch + 1);
         }
     }
     CharClass(wchar_t start, wchar_t end)
@@ -195,7 +195,8 @@ public:
 
         auto i = m_ranges.cbegin();
 
-        for (; i != m_ranges.cend() && !i->overlaps(r); i++)
+        //Only the ranges entirely below the new one may precede it
+        for (; i != m_ranges.cend() && i->end() < r.start(); i++)
             ;
         
         cc.m_ranges.insert(cc.m_ranges.end(), m_ranges.cbegin(), i);
-- 
2.43.0


From 04f2f828d75f8e48ab28afc5a253c78fef666e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 03/52] fix: do not lose merged ranges in the union of
 character classes

---
 src/core/CharClass.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/CharClass.cpp b/src/core/CharClass.cpp
index d42fa14..9b3445a 100644
--- a/src/core/CharClass.cpp
+++ b/src/core/CharClass.cpp
@@ -164,8 +164,17 @@ CharClass<TCHAR> CharClass<TCHAR>::operator|(const CharClass<TCHAR>& cc) const
         }
     }
 
-    new_class.m_ranges.insert(new_class.m_ranges.end(), i, m_ranges.cend());
-    new_class.m_ranges.insert(new_class.m_ranges.end(), j, cc.m_ranges.cend());
+    //The current range may have absorbed others, so it is not the one stored in the vector
+    if (i != m_ranges.cend())
+    {
+        new_class.m_ranges.push_back(ri);
+        new_class.m_ranges.insert(new_class.m_ranges.end(), ++i, m_ranges.cend());
+    }
+    if (j != cc.m_ranges.cend())
+    {
+        new_class.m_ranges.push_back(rj);
+        new_class.m_ranges.insert(new_class.m_ranges.end(), ++j, cc.m_ranges.cend());
+    }
 
     return new_class;
 }
-- 
2.43.0


From bcb31dcd817c6d2d22ae306fce8db041b99b934b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 04/52] fix: emit no empty ranges when complementing a
 character class

---
 src/core/CharClass.hpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index 1e8801e..e6de886 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -169,18 +169,11 @@ public:
 		typename std::vector<Range<TCHAR> >::const_iterator i = m_ranges.cbegin();
 		TCHAR last_end = 1;
 
-		if (i != m_ranges.cend())
-		{
-			if (i->start() == 1)
-			{
-				last_end = i->end();
-				i++;
-			}
-		}
-
 		for (; i != m_ranges.cend(); i++)
 		{
-			cc.m_ranges.emplace_back(last_end, i->start());
+			//Adjacent ranges have no gap between them
+			if (last_end < i->start())
+				cc.m_ranges.emplace_back(last_end, i->start());
 			last_end = i->end();
 		}
 
-- 
2.43.0


From 29fce28e3505fe383bd3057438c07fcb0c7be77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 05/52] fix: follow epsilon loops of an NFA only once and stop
 at the end of the input

---
 src/core/NFA.hpp | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 3f801bb..f8bb406 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -628,8 +628,9 @@ public:
     }
     bool epsilon_closure_sub(std::set<int>& closure, int index) const
     {
-        //Always include myself
-        closure.insert(index);
+        //Always include myself, and do not revisit states: nested repetitions form epsilon loops
+        if (!closure.insert(index).second)
+            return false;
 
         bool long_flag = false;
         IndexVector et = m_states[index].epsilon_transitions(long_flag);
@@ -667,27 +668,25 @@ public:
      */
     bool run(const std::basic_string<TCHAR>& seq, int index = 0, int input_pos = 0) const
     {
-        if (index == m_states.size() - 1 && seq.size() == input_pos)
-        {
-            return true;
-        }
-        else
+        bool long_flag = false;
+        std::set<int> current = epsilon_closure(index, long_flag);
+
+        for (; input_pos < seq.size(); input_pos++)
         {
-            for (const auto& tr : get_transitions(index))
+            std::set<int> next;
+
+            for (int state : current)
             {
-                if (tr.is_epsilon())
-                {
-                    if (run(seq, tr.dest(), input_pos))
-                        return true;
-                }
-                else if (tr.label().includes(seq[input_pos]))
+                for (const auto& tr : get_transitions(state))
                 {
-                    if (run(seq, tr.dest(), input_pos + 1))
-                        return true;
+                    if (!tr.is_epsilon() && tr.label().includes(seq[input_pos]))
+                        next.insert(tr.dest());
                 }
             }
-            return false;
+
+            current = epsilon_closure(next, long_flag);
         }
+        return current.count(m_states.size() - 1) != 0;
     }
     /*!
     * @brief Add a transition to a new state from the final state.
-- 
2.43.0


From b32307c2c3e1023931e7e0b6e0b023f1b793edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 06/52] fix: give a repeated regex unit an exit state of its
 own

(a1+)? accepted "1", because the optional path joined the looping state.
---
 src/core/NFA.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index f8bb406..445efda 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -517,6 +517,8 @@ public:
                 add_transition_to(CharClass<TCHAR>(), 1);
                 break;
             }
+            //Add a confluence, so that the looping state does not become the final state
+            add_state(CharClass<TCHAR>());
             break;
         case L'*':
             stream.discard();
-- 
2.43.0


From e5112d8d59d7888c18deac3bf513f79f9e69132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 07/52] fix: follow each node only once when building a
 lookahead closure

---
 src/core/CompositeATN.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/CompositeATN.cpp b/src/core/CompositeATN.cpp
index 0f0564a..cc27e76 100644
--- a/src/core/CompositeATN.cpp
+++ b/src/core/CompositeATN.cpp
@@ -67,9 +67,9 @@ void CompositeATN<TCHAR>::build_closure_exclusive(CATNClosure& closure, const AT
 
                 if (dest_node.is_terminal())
                 {
-                    closure.emplace(dest_path, color, new_priority);
-
-                    build_closure_exclusive(closure, dest_path, color, stack, new_priority);
+                    //A node which is already in the closure has been followed before
+                    if (closure.emplace(dest_path, color, new_priority).second)
+                        build_closure_exclusive(closure, dest_path, color, stack, new_priority);
                 }
                 else
                 {
@@ -91,9 +91,8 @@ void CompositeATN<TCHAR>::build_closure_inclusive(CATNClosure& closure, const AT
 
     if (node.is_terminal())
     {
-        closure.emplace(path, color, priority);
-
-        build_closure_exclusive(closure, path, color, stack, priority);
+        if (closure.emplace(path, color, priority).second)
+            build_closure_exclusive(closure, path, color, stack, priority);
     }
     else
     {
-- 
2.43.0


From 1ad6a947c38b3e3ef245c090c7194fd478664e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 08/52] fix: give an empty literal a node of its own in the
 composite ATN

---
 src/core/CompositeATN.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index dbf6194..5b3a71a 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -112,6 +112,10 @@ private:
     }
     int import_literal_terminal(const std::basic_string<TCHAR>& literal, int origin, int tag)
     {
+        //An empty literal still needs a node of its own
+        if (literal.empty())
+            return add_node(CharClass<TCHAR>(), origin, tag);
+
         for (TCHAR ch : literal)
         {
             origin = add_node(CharClass<TCHAR>(ch, ch + 1), origin, tag);
-- 
2.43.0


From e6814baea677f4f15c96bd91315eca89d31dbaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 09/52] fix: report a CR LF pair as a line end, so that it ends
 a one-line comment

---
 src/core/Stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Stream.hpp b/src/core/Stream.hpp
index 36450ad..9d3f913 100644
--- a/src/core/Stream.hpp
+++ b/src/core/Stream.hpp
@@ -97,6 +97,7 @@ public:
                     m_newline_flag = true;
                     m_pos++;
                     m_cur++;
+                    return L'\n';
                 }
             }
             else if (ch == L'\n' || ch == L'\u0085' || ch == L'\u2028' || ch == L'\u2029')
-- 
2.43.0


From c5127f49b7d9e6977bed7a0678357dcdeb1cd812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 10/52] fix: reject an include directive whose path is not
 terminated

---
 src/core/Grammar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 844c782..c1f3f62 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -97,6 +97,8 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 
             for (ch = stream.get(); ch != L'"'; ch = stream.get())
             {
+                if (ch == L'\0')
+                    throw stream.unexpected(ch);
                 wide_path.push_back(ch);
             }
 
-- 
2.43.0


From 0d59d708159c6b19a64822255200748c91ece06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 11/52] fix: keep the list of identifiers when a grammar is
 moved

---
 src/core/Grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index a339855..0fa0aa9 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -71,7 +71,7 @@ public:
         optimize();
     }
     Grammar(Grammar&& old)
-        : m_networks(std::move(old.m_networks)), m_root_id(old.m_root_id)
+        : m_networks(std::move(old.m_networks)), m_identifiers(std::move(old.m_identifiers)), m_root_id(old.m_root_id), m_grammar_name(old.m_grammar_name), m_options(std::move(old.m_options))
     {
     }
     virtual ~Grammar()
-- 
2.43.0


From 67f6f27c138520ef330728cdf8b3579b86a35c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 12/52] fix: initialise the local id of a node parsed without
 one

---
 src/core/ATN.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index b614473..96ed98b 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -101,6 +101,7 @@ public:
     {
     }
     ATNNode(Stream& stream)
+        : m_localid(-1)
     {
         parse(stream);
     }
-- 
2.43.0


From 87842cb17300aed62d6986d36f64c094c580ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 13/52] fix: reject unbalanced parentheses in a regex

---
 src/core/NFA.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 445efda..1406249 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -441,14 +441,20 @@ public:
 
         add_transition_from(CharClass<TCHAR>(), initial_size - 1);
     }
-    void parse(Stream& stream)
+    void parse(Stream& stream, bool nested = false)
     {
-        for (wchar_t ch = stream.get(); ch != L')' && ch != L'/' && ch != L'\0'; ch = stream.get())
+        wchar_t ch = stream.get();
+
+        for (; ch != L')' && ch != L'/' && ch != L'\0'; ch = stream.get())
         {
             NFA<TCHAR> nfa;
             nfa.parse_selection(stream, ch);
             concat(nfa);
         }
+
+        //Parentheses must be balanced
+        if (nested != (ch == L')'))
+            throw stream.unexpected(ch);
     }
     void parse_unit(Stream& stream, wchar_t ch)
     {
@@ -483,8 +489,12 @@ public:
             add_state(CharClass<TCHAR>::make_star());
             break;
         case L'(':
-            concat(NFA<TCHAR>(stream));
+        {
+            NFA<TCHAR> nfa;
+            nfa.parse(stream, true);
+            concat(nfa);
             break;
+        }
         default:
             add_state(CharClass<TCHAR>(ch));
             break;
-- 
2.43.0


From 5f55318976d7978f48e9df2db51498f324c2b8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 14/52] fix: reject a regex which ends where an alternative is
 expected

---
 src/core/NFA.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 1406249..ddb22e8 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -495,6 +495,11 @@ public:
             concat(nfa);
             break;
         }
+        case L')':
+        case L'/':
+        case L'\0':
+            //The regex ends where an alternative is expected
+            throw stream.unexpected(ch);
         default:
             add_state(CharClass<TCHAR>(ch));
             break;
-- 
2.43.0


From 25c68c36da3b29799b4e7cef5b2f825d6673ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 15/52] fix: keep the priorities of the alternatives when
 passthrough nodes are dropped

---
 src/core/ATN.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index 96ed98b..4ef6dd4 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -377,9 +377,22 @@ public:
                 {
                     assert(where >= 0);
                     ATNNode<TCHAR>& origin = m_nodes.at(where);
+                    int priority = 0;
+                    for (const auto& t : origin.get_transitions())
+                    {
+                        if (t.dest() == i) priority = t.tag();
+                    }
+                    bool prioritized = false;
+                    for (const auto& t : node.get_transitions())
+                    {
+                        if (t.tag() != 0) prioritized = true;
+                    }
+                    //Two levels of priorities cannot be expressed by a single node
+                    if (prioritized && origin.get_transitions().size() > 1)
+                        continue;
                     for (const auto& t : node.get_transitions())
                     {
-                        origin.add_transition(t);
+                        origin.add_transition(t.dest(), prioritized ? t.tag() : priority);
                     }
                     mask[i] = false;
                 }
-- 
2.43.0


From 54f6b73713a0d6d459e634ec24dc66d4cea35d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 16/52] fix: reject a local id too large for an int

---
 src/core/ATN.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/ATN.cpp b/src/core/ATN.cpp
index c578dba..26bff7e 100644
--- a/src/core/ATN.cpp
+++ b/src/core/ATN.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include "ATN.hpp"
 
 namespace Centaurus
@@ -58,6 +60,8 @@ void ATNNode<TCHAR>::parse(Stream& stream)
         int id = 0;
         for (; L'0' <= ch && ch <= L'9'; ch = stream.peek())
         {
+            if (id > (std::numeric_limits<int>::max() - 9) / 10)
+                throw stream.unexpected(ch);
             id = id * 10 + static_cast<int>(ch - L'0');
             stream.discard();
         }
-- 
2.43.0


From 82c2fe9fc6fbff93bd62e7db1143c54a11fa50ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 17/52] fix: reject a reversed range in a character class

---
 src/core/CharClass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/CharClass.cpp b/src/core/CharClass.cpp
index 9b3445a..e20feac 100644
--- a/src/core/CharClass.cpp
+++ b/src/core/CharClass.cpp
@@ -97,6 +97,8 @@ void CharClass<TCHAR>::parse(Stream& stream)
             }
             else
             {
+                if (ch < start)
+                    throw stream.unexpected(ch);
                 *this |= Range<TCHAR>(start, ch + 1);
                 state = CC_STATE_START;
             }
-- 
2.43.0


From 4a9cd17bd1961933b24115e0e3541960cb637545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 18/52] fix: do not look below the bottom of an empty reduction
 stack

---
 src/core/Stage2RunnerNonRecursive.hpp | 4 ++--
 src/core/Stage3RunnerNonRecursive.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index c40bcf5..abd68c1 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -55,7 +55,7 @@ protected:
   static void push_value(const semantic_value_type val, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
     if (val == 0) return;
-    if (detail::isValueTag(tags.back())) {
+    if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + 1);
     } else {
       tags.emplace_back(detail::StackEntryTag::VALUE);
@@ -80,7 +80,7 @@ protected:
 #if PYCENTAURUS
     auto new_val = m_listener(&sym, values.data(), value_count, m_listener_context);
 #else
-    auto new_val = m_listener(&sym, &values[values.size() - value_count], value_count, m_listener_context);
+    auto new_val = m_listener(&sym, values.data() + (values.size() - value_count), value_count, m_listener_context);
     values.resize(values.size() - value_count);
 #endif
     if (reduction_counter != nullptr) {
diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index dbfb854..956fe0f 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -118,7 +118,7 @@ private:
   template <typename Iterator>
   static void append_value(Iterator& values_next_it, int n, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
-    if (detail::isValueTag(tags.back())) {
+    if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + n);
     } else {
       tags.emplace_back(static_cast<detail::StackEntryTag>(n));
-- 
2.43.0


From e5c557b3862ffe9211b1c3b65516cae4c641f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:24 +0000
Subject: [PATCH 19/52] fix: replace the shared objects of a dead process with
 the same pid

---
 src/core/BaseRunner.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index 27b5f31..ee1f8b2 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -246,6 +246,8 @@ protected:
     m_sub_window  = MapViewOfFile(m_mem_handle, FILE_MAP_ALL_ACCESS, 0, 0, get_sub_window_size());
     m_main_window = MapViewOfFile(m_mem_handle, FILE_MAP_ALL_ACCESS, 0, get_sub_window_size(), get_main_window_size());
 #elif defined(CENTAURUS_BUILD_LINUX)
+    // A dead process with the same pid may have left its window behind.
+    if (is_allocating) shm_unlink(m_memory_name);
     int fd = shm_open(m_memory_name, (is_allocating) ? O_RDWR | O_CREAT : O_RDWR, 0600);
     ftruncate(fd, get_window_size());
     m_sub_window  = mmap(NULL, get_sub_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
@@ -272,6 +274,8 @@ protected:
 #if defined(CENTAURUS_BUILD_WINDOWS)
     m_slave_lock = CreateSemaphoreA(NULL, 0, m_bank_num, m_slave_lock_name);
 #elif defined(CENTAURUS_BUILD_LINUX)
+    // A dead process with the same pid may have left its semaphore behind.
+    sem_unlink(m_slave_lock_name);
     m_slave_lock = sem_open(m_slave_lock_name, O_CREAT | O_EXCL, 0600, 0);
 #endif
   }
-- 
2.43.0


From 15a1052127eea1d5abd27240b3dd12fcdae689b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 20/52] fix: close the window's descriptor in every runner

---
 src/core/BaseRunner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index ee1f8b2..6e83865 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -252,7 +252,7 @@ protected:
     ftruncate(fd, get_window_size());
     m_sub_window  = mmap(NULL, get_sub_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
     m_main_window = mmap(NULL, get_main_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, get_sub_window_size());
-    if (is_allocating) close(fd);
+    close(fd);
 #endif
   }
   void release_memory(bool is_finalizing)
-- 
2.43.0


From 0c4a31815cdf6461b3740671ab602ba326a52e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 21/52] fix: report an input that cannot be opened or mapped

---
 src/core/BaseRunner.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index 6e83865..2b3d80a 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -2,6 +2,8 @@
 
 #include <stdio.h>
 #include <atomic>
+#include <stdexcept>
+#include <string>
 
 #include "BaseListener.hpp"
 #include "Platform.hpp"
@@ -142,6 +144,7 @@ public:
 		sprintf(m_slave_lock_name, "%s%s[%u]SlaveLock", PROGRAM_UUID, PROGRAM_NAME, pid);
 #elif defined(CENTAURUS_BUILD_LINUX)
         int fd = open(filename, O_RDONLY);
+        if (fd == -1) throw std::runtime_error(std::string("Cannot open ") + filename);
 
         struct stat sb;
         fstat(fd, &sb);
@@ -151,6 +154,8 @@ public:
 
         close(fd);
 
+        if (m_input_window == MAP_FAILED) throw std::runtime_error(std::string("Cannot map ") + filename);
+
         snprintf(m_memory_name, sizeof(m_memory_name), "/%s%s[%d]Window", PROGRAM_UUID, PROGRAM_NAME, pid);
 
 		snprintf(m_slave_lock_name, sizeof(m_slave_lock_name), "/%s%s[%d]SlaveLock", PROGRAM_UUID, PROGRAM_NAME, pid);
-- 
2.43.0


From 94187fc64ce70a4dbb5c722d4e8f0470f745d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:47 +0000
Subject: [PATCH 22/52] fix: end every input with zeros

---
 src/core/BaseRunner.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index 2b3d80a..61da26f 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -88,6 +88,7 @@ typedef void (CENTAURUS_CALLBACK * TransferListener)(int index, int new_index, v
 class BaseRunner : public BaseListener
 {
     static constexpr size_t STACK_SIZE = 1024 * 1024 * 1024;
+    static constexpr size_t INPUT_PADDING = 16; // parsers read the terminating zero 16 bytes at a time
 protected:
 	enum class WindowBankState
 	{
@@ -150,7 +151,15 @@ public:
         fstat(fd, &sb);
         m_input_size = sb.st_size;
 
-        m_input_window = mmap(NULL, sb.st_size, PROT_READ, MAP_SHARED, fd, 0);
+        // Zeros follow the file's bytes, also when these end with their last page.
+        m_input_window = mmap(NULL, m_input_size + INPUT_PADDING, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
+
+        if (m_input_window != MAP_FAILED && m_input_size > 0
+            && mmap(const_cast<void *>(m_input_window), m_input_size, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
+        {
+            munmap(const_cast<void *>(m_input_window), m_input_size + INPUT_PADDING);
+            m_input_window = MAP_FAILED;
+        }
 
         close(fd);
 
@@ -166,7 +175,7 @@ public:
 #if defined(CENTAURUS_BUILD_WINDOWS)
         UnmapViewOfFile(m_input_window);
 #elif defined(CENTAURUS_BUILD_LINUX)
-        munmap(const_cast<void *>(m_input_window), m_input_size);
+        munmap(const_cast<void *>(m_input_window), m_input_size + INPUT_PADDING);
 #endif
 	}
 public:
-- 
2.43.0


From 137635dab46b18d7bfb202617ca08cb3e75fe75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 23/52] fix: write a partial reduction back within its bank

---
 src/core/BaseRunner.hpp               |  8 +++++
 src/core/Stage2RunnerNonRecursive.hpp | 31 +++++++++-------
 src/core/Stage3RunnerNonRecursive.hpp | 51 ++++++++++++++-------------
 3 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index 61da26f..14ec537 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -20,6 +20,14 @@ class CSTMarker
 	uint64_t m_value;
 public:
 	CSTMarker(uint64_t value) : m_value(value) {}
+	static CSTMarker sv_marker(uint64_t count)
+	{
+		return CSTMarker(((uint64_t)1 << 63) | count);
+	}
+	uint64_t get_value() const
+	{
+		return m_value;
+	}
 	int get_machine_id() const
 	{
 		return (m_value >> 48) & 0x7FFF;
diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index abd68c1..7ca9259 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -158,19 +158,26 @@ private:
       }
     }
 #if PYCENTAURUS
+    // Write back in place: a run of values stands for one or more reduced pairs of markers,
+    // so this never takes more words than the markers did.
     auto it = src;
-    *it++ = starts.size();
-    std::memcpy(it, starts.data(), starts.size()*sizeof(CSTMarker));
-    it += starts.size();
-    *it++ = ends.size();
-    std::memcpy(it, ends.data(), ends.size()*sizeof(CSTMarker));
-    it += ends.size();
-    *it++ = values.size();
-    std::memcpy(it, values.data(), values.size()*sizeof(semantic_value_type));
-    it += values.size();
-    *it++ = tags.size();
-    std::memcpy(it, tags.data(), tags.size()*sizeof(detail::StackEntryTag));
-    assert(reinterpret_cast<uint64_t*>(reinterpret_cast<detail::StackEntryTag*>(it) + tags.size()) < src + m_bank_size / 8);
+    auto starts_it = starts.cbegin();
+    auto ends_it   = ends.cbegin();
+    for (auto tag : tags) {
+      switch (tag) {
+      case detail::StackEntryTag::START_MARKER:
+        *it++ = (starts_it++)->get_value();
+        break;
+      case detail::StackEntryTag::END_MARKER:
+        *it++ = (ends_it++)->get_value();
+        break;
+      default:
+        *it++ = CSTMarker::sv_marker(static_cast<int>(tag)).get_value();
+        break;
+      }
+    }
+    if (it != src + m_bank_size / 8) *it = 0;
+    delete ptr;
 #else
     *src = reinterpret_cast<uint64_t>(ptr);
 #endif
diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index 956fe0f..2aa0149 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -31,19 +31,21 @@ private:
   semantic_value_type reduce()
   {
 #if PYCENTAURUS
-    auto bank_ptr = reinterpret_cast<uint64_t*>(acquire_bank());
+    auto bank_ptr = reinterpret_cast<const uint64_t*>(acquire_bank());
     assert(bank_ptr != nullptr);
-    std::vector<CSTMarker> starts(*bank_ptr++, CSTMarker(0));
-    std::memcpy(starts.data(), bank_ptr, starts.size()*sizeof(CSTMarker));
-    bank_ptr += starts.size();
-    std::vector<CSTMarker> ends(*bank_ptr++, CSTMarker(0));
-    assert(ends.empty());
-    std::vector<semantic_value_type> values(*bank_ptr++);
-    std::memcpy(values.data(), bank_ptr, values.size()*sizeof(semantic_value_type));
-    assert(values[0] == 0 && values.size() == 1);
-    bank_ptr += values.size();
-    std::vector<detail::StackEntryTag> tags(*bank_ptr++);
-    std::memcpy(tags.data(), bank_ptr, tags.size()*sizeof(detail::StackEntryTag));
+    std::vector<CSTMarker> starts, ends;
+    std::vector<semantic_value_type> values(1, 0);
+    std::vector<detail::StackEntryTag> tags;
+    for (size_t i = 0; i < m_bank_size / 8; i++) {
+      if (bank_ptr[i] == 0) break;
+      CSTMarker marker(bank_ptr[i]);
+      if (marker.is_start_marker()) {
+        push_start_marker(marker, starts, tags);
+      } else {
+        assert(marker.is_sv_marker());
+        tags.emplace_back(static_cast<detail::StackEntryTag>(marker.get_offset()));
+      }
+    }
 #else
     auto bank_base_ptr = reinterpret_cast<std::tuple<std::vector<CSTMarker>,
                                                      std::vector<CSTMarker>,
@@ -61,21 +63,25 @@ private:
     void *current_bank;
     while ((current_bank = acquire_bank()) != nullptr) {
 #if PYCENTAURUS
-      auto bank_ptr = reinterpret_cast<uint64_t*>(current_bank);
-      detail::ConstPtrRange<CSTMarker> starts_next(reinterpret_cast<CSTMarker*>(bank_ptr + 1), bank_ptr[0]);
-      bank_ptr += starts_next.size() + 1;
-      detail::ConstPtrRange<CSTMarker> ends_next(reinterpret_cast<CSTMarker*>(bank_ptr + 1), bank_ptr[0]);
-      bank_ptr += ends_next.size() + 1;
-      detail::ConstPtrRange<semantic_value_type> values_next(bank_ptr + 1, bank_ptr[0]);
-      bank_ptr += values_next.size() + 1;
-      detail::ConstPtrRange<detail::StackEntryTag> tags_next(reinterpret_cast<detail::StackEntryTag*>(bank_ptr + 1), bank_ptr[0]);
+      auto bank_ptr = reinterpret_cast<const uint64_t*>(current_bank);
+      for (size_t i = 0; i < m_bank_size / 8; i++) {
+        if (bank_ptr[i] == 0) break;
+        CSTMarker marker(bank_ptr[i]);
+        if (marker.is_start_marker()) {
+          push_start_marker(marker, starts, tags);
+        } else if (marker.is_end_marker()) {
+          assert(!starts.empty());
+          reduce_by_end_marker(marker, starts, values, tags);
+        } else {
+          append_value(bank_ptr, static_cast<int>(marker.get_offset()), values, tags);
+        }
+      }
 #else
       auto& stack_tuple = **reinterpret_cast<std::decay<decltype(stack_tuple_base)>::type**>(current_bank);
       auto& starts_next = std::get<0>(stack_tuple);
       auto& ends_next   = std::get<1>(stack_tuple);
       auto& values_next = std::get<2>(stack_tuple);
       auto& tags_next   = std::get<3>(stack_tuple);
-#endif
       auto starts_next_it = starts_next.begin();
       auto ends_next_it   = ends_next.begin();
       auto values_next_it = values_next.begin();
@@ -96,10 +102,7 @@ private:
       }
       assert(starts_next_it == starts_next.end());
       assert(ends_next_it == ends_next.end());
-#if !PYCENTAURUS
       assert(values_next_it == values_next.end());
-#endif
-#if !PYCENTAURUS
       delete &stack_tuple;
 #endif
       release_bank();
-- 
2.43.0


From 16915225789a8f6dd30a786800c472f2fdcfbf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 24/52] fix: keep '.' from matching the terminating zero

---
 src/core/CharClass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index e6de886..a061963 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -156,7 +156,7 @@ public:
     }
     static CharClass<TCHAR> make_star()
     {
-        return CharClass<TCHAR>(0, std::numeric_limits<TCHAR>::max());
+        return CharClass<TCHAR>(1, std::numeric_limits<TCHAR>::max());
     }
     bool is_epsilon() const
     {
-- 
2.43.0


From 6da804f4b8d554fb5868285a5d7e01de44d4bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 25/52] fix: take every self-transition of a block loop at once

---
 src/core/CodeGenEM64T.cpp | 47 ++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index 677585d..d9f2f80 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -583,31 +583,38 @@ void DFARoutineEM64T<TCHAR>::emit(asmjit::X86Assembler& as, asmjit::Label& rejec
 template<typename TCHAR>
 void DFARoutineEM64T<TCHAR>::emit_state(asmjit::X86Assembler& as, asmjit::Label& rejectlabel, const DFAState<TCHAR>& state, int index, std::vector<asmjit::Label>& labels, MyConstPool& pool)
 {
-    std::vector<NFATransition<TCHAR> > transitions(state.get_transitions());
+    std::vector<NFATransition<TCHAR> > transitions;
+    CharClass<TCHAR> loop_label;
 
-    for (auto i = transitions.begin(); i != transitions.end();)
+    //All of the transitions to the state itself have to be taken by a single loop
+    for (const auto& tr : state.get_transitions())
     {
-        if (i->dest() == index && state.is_long())
-        {
-            pool.load_charclass_filter(PATTERN2_REG, i->label());
+        if (tr.dest() == index && state.is_long())
+            loop_label = loop_label | tr.label();
+        else
+            transitions.push_back(tr);
+    }
 
-            asmjit::Label looplabel = as.newLabel();
+    if (loop_label.size() > 8 / (int)sizeof(TCHAR))
+    {
+        //Too many ranges for a pattern register
+        transitions = state.get_transitions();
+    }
+    else if (!loop_label.is_epsilon())
+    {
+        pool.load_charclass_filter(PATTERN2_REG, loop_label);
 
-            as.bind(looplabel);
+        asmjit::Label looplabel = as.newLabel();
 
-            as.movdqu(LOAD_REG, asmjit::X86Mem(INPUT_REG, 0));
-            as.pcmpistri(PATTERN2_REG, LOAD_REG, asmjit::Imm(sizeof(TCHAR) == 1 ? 0x14 : 0x15));
-            if (sizeof(TCHAR) == 2)
-                as.sal(INDEX_REG, 1);
-            as.add(INPUT_REG, INDEX_REG);
-            as.cmp(INDEX_REG, 15);
-            as.jg(looplabel);
-            i = transitions.erase(i);
-        }
-        else
-        {
-            i++;
-        }
+        as.bind(looplabel);
+
+        as.movdqu(LOAD_REG, asmjit::X86Mem(INPUT_REG, 0));
+        as.pcmpistri(PATTERN2_REG, LOAD_REG, asmjit::Imm(sizeof(TCHAR) == 1 ? 0x14 : 0x15));
+        if (sizeof(TCHAR) == 2)
+            as.sal(INDEX_REG, 1);
+        as.add(INPUT_REG, INDEX_REG);
+        as.cmp(INDEX_REG, 15);
+        as.jg(looplabel);
     }
 
     if (state.is_accept_state())
-- 
2.43.0


From 41e53ac90887c07222436a8c339ba042b806e03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 26/52] fix: fill up the syntax tree's last page on rejection

---
 src/core/CodeGenEM64T.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index d9f2f80..db5c663 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -117,6 +117,16 @@ void ParserEM64T<TCHAR>::init(const Grammar<TCHAR>& grammar, asmjit::Logger *log
         as.call(machine_map[grammar.get_root_id()]);
     }
 
+    asmjit::Label filllabel = as.newLabel();
+    as.jmp(filllabel);
+
+    //Jump to this label is a long jump. Discard everything on the stack.
+    as.bind(rejectlabel);
+    as.mov(asmjit::x86::rsp, STACK_BACKUP_REG);
+    as.xor_(INPUT_REG, INPUT_REG);
+
+    //The consumers of the AST stop at the first zero
+    as.bind(filllabel);
     asmjit::Label landfilllabel = as.newLabel();
     as.xor_(MARKER_REG, MARKER_REG);
     as.bind(landfilllabel);
@@ -140,7 +150,8 @@ void ParserEM64T<TCHAR>::init(const Grammar<TCHAR>& grammar, asmjit::Logger *log
 
     as.bind(finishlabel);
 
-    emit_parser_epilog(as, rejectlabel);
+    asmjit::Label unusedlabel = as.newLabel();
+    emit_parser_epilog(as, unusedlabel);
 
     pool.embed();
 
-- 
2.43.0


From 25f4a60e17a5dd629e8e7d025cf02f6dad2120dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:50 +0000
Subject: [PATCH 27/52] fix: align the stack for the callbacks of generated
 code

---
 src/core/CodeGenEM64T.cpp      | 14 ++++++++------
 src/core/CodeGenUtilsEM64T.hpp |  7 ++++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index db5c663..1e7f086 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -425,14 +425,15 @@ void ParserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const ATNMachine
         as.push(STACK_BACKUP_REG);
         as.movdqa(asmjit::x86::xmm15, PATTERN_REG);
         as.mov(ARG1_REG, asmjit::X86Mem(asmjit::x86::rsp, 8));
+        //The stack depth varies with the nesting of machines, but callees expect it to be aligned
+        as.mov(ID_REG, asmjit::x86::rsp);
+        as.and_(asmjit::x86::rsp, asmjit::Imm(-16));
 #if defined(CENTAURUS_BUILD_WINDOWS)
         as.sub(asmjit::x86::rsp, 32);
 #endif
         as.sfence();
         as.call((uint64_t)request_page);
-#if defined(CENTAURUS_BUILD_WINDOWS)
-        as.add(asmjit::x86::rsp, 32);
-#endif
+        as.mov(asmjit::x86::rsp, ID_REG);
         as.mov(OUTPUT_REG, asmjit::x86::rax);
         as.mov(OUTPUT_BOUND_REG, OUTPUT_REG);
         as.add(OUTPUT_BOUND_REG, AST_BUF_SIZE);
@@ -452,14 +453,15 @@ void ParserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const ATNMachine
         as.push(STACK_BACKUP_REG);
         as.movdqa(asmjit::x86::xmm15, PATTERN_REG);
         as.mov(ARG1_REG, asmjit::X86Mem(asmjit::x86::rsp, 8));
+        //The stack depth varies with the nesting of machines, but callees expect it to be aligned
+        as.mov(ID_REG, asmjit::x86::rsp);
+        as.and_(asmjit::x86::rsp, asmjit::Imm(-16));
 #if defined(CENTAURUS_BUILD_WINDOWS)
         as.sub(asmjit::x86::rsp, 32);
 #endif
         as.sfence();
         as.call((uint64_t)request_page);
-#if defined(CENTAURUS_BUILD_WINDOWS)
-        as.add(asmjit::x86::rsp, 32);
-#endif
+        as.mov(asmjit::x86::rsp, ID_REG);
         as.mov(OUTPUT_REG, asmjit::x86::rax);
         as.mov(OUTPUT_BOUND_REG, OUTPUT_REG);
         as.add(OUTPUT_BOUND_REG, AST_BUF_SIZE);
diff --git a/src/core/CodeGenUtilsEM64T.hpp b/src/core/CodeGenUtilsEM64T.hpp
index e1f72de..1308eff 100644
--- a/src/core/CodeGenUtilsEM64T.hpp
+++ b/src/core/CodeGenUtilsEM64T.hpp
@@ -89,13 +89,14 @@ static void call_abs(asmjit::X86Assembler& as, T addr, Ts... args)
 	if (sizeof...(args) >= 3) as.pop(ARG3_REG);
 	if (sizeof...(args) >= 4) as.pop(ARG4_REG);
 	
+	//Callees expect an aligned stack and preserve this register
+	as.mov(BACKUP_REG, asmjit::x86::rsp);
+	as.and_(asmjit::x86::rsp, asmjit::Imm(-16));
 #if defined(CENTAURUS_BUILD_WINDOWS)
 	as.sub(asmjit::x86::rsp, 32);
 #endif
 	as.call(reinterpret_cast<uint64_t>(addr));
-#if defined(CENTAURUS_BUILD_WINDOWS)
-	as.add(asmjit::x86::rsp, 32);
-#endif
+	as.mov(asmjit::x86::rsp, BACKUP_REG);
 }
 
 static void emit_parser_prolog(asmjit::X86Assembler& as)
-- 
2.43.0


From 1c3e69fab0d1f73ca0ae1f5db651a8d9c24ceefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:12 +0000
Subject: [PATCH 28/52] fix: fail a chaser whose called rule failed

---
 src/core/CodeGenEM64T.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index 1e7f086..0ebaa8b 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -280,6 +280,8 @@ void ChaserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const Grammar<TC
 			as.pop(STACK_BACKUP_REG);
 			as.pop(CONTEXT_REG);
             as.mov(INPUT_REG, asmjit::x86::rax);
+            as.cmp(INPUT_REG, 0);
+            as.je(rejectlabel);
 			break;
 		}
 
-- 
2.43.0


From 9c07c6ae4f82cb4c199527434fcc2e2d41a175f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 29/52] fix: let the reduction of a rejected input end quietly

---
 src/core/Stage3RunnerNonRecursive.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index 2aa0149..84b32ba 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -107,10 +107,7 @@ private:
 #endif
       release_bank();
     }
-    assert(starts.empty());
-    assert(ends.empty());
-    assert(values.size() <= 1);
-    assert(tags.size() <= 1);
+    // When the input was rejected, the unfinished symbols are left on the stacks
 
     auto result = (values.empty()) ? 0 : std::move(values.front());
 #if !PYCENTAURUS
-- 
2.43.0


From 6692523cb1bdb0e697046144e9437ce2dee6445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:10 +0000
Subject: [PATCH 30/52] fix: give a result when the input was rejected in
 Python

---
 src/python/centaurus/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index f4b1d04..9b3cea4 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -78,8 +78,8 @@ class Stage3Worker(SubprocessWorker):
         runner.attach(adapter.reduction_callback, adapter.transfer_callback)
         runner.start()
         runner.wait()
-        assert len(adapter.values) <= 1
-        self.context.drain.put(adapter.values[0] if adapter.values else None)
+        # When the input was rejected, values of unfinished symbols are left
+        self.context.drain.put(adapter.values[0] if len(adapter.values) == 1 else None)
 
 class Context(object):
     bank_size = 8 * 1024 * 1024
-- 
2.43.0


From 446bc9ea7477ce64407b445ade4c6be6d3d04e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 31/52] fix: finish one parse in Python before the next one
 starts

---
 src/python/centaurus/context.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index 9b3cea4..bfce308 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -20,10 +20,12 @@ class Stage1Worker(object):
     def start(self):
         if sys.platform.startswith('linux') and self.core_affinity >= 0:
             os.system("taskset -p -c %d %d" % (self.core_affinity, os.getpid()))
-    def stop(self):
+    def wait(self):
         if self.runner:
             self.runner.wait()
             self.runner = None
+    def stop(self):
+        self.wait()
     def attach(self, listener):
         pass
     def set_core_affinity(self, core_affinity):
@@ -36,6 +38,7 @@ class SubprocessWorker:
         self.master_pid = os.getpid()
         self.proc = mp.Process(target=self.workloop)
         self.cmd_queue = mp.Queue()
+        self.done_queue = mp.Queue()
         self.listener = None
         self.core_affinity = core_affinity
     def start(self):
@@ -45,6 +48,8 @@ class SubprocessWorker:
         self.proc.join()
     def parse(self, path):
         self.cmd_queue.put(('parse', path))
+    def wait(self):
+        self.done_queue.get()
     def attach(self, listener):
         self.listener = listener
     def set_core_affinity(self, core_affinity):
@@ -62,6 +67,7 @@ class SubprocessWorker:
                 break
             elif cmd == 'parse':
                 self.parse_impl(arg)
+                self.done_queue.put(None)
 
 class Stage2Worker(SubprocessWorker):
     def parse_impl(self, path):
@@ -95,9 +101,14 @@ class Context(object):
             w.attach(self.listener)
             w.start()
     def parse(self, path):
-        for w in itertools.chain(self.serial_workers, self.parallel_workers):
+        workers = tuple(itertools.chain(self.serial_workers, self.parallel_workers))
+        for w in workers:
             w.parse(path)
-        return self.drain.get()
+        result = self.drain.get()
+        # The next parse reuses the names of the shared objects, which the first worker removes.
+        for w in reversed(workers):
+            w.wait()
+        return result
     def stop(self):
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.stop()
-- 
2.43.0


From 7b8151447e4b66839dc642a55545e3a1e4f7c8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:12 +0000
Subject: [PATCH 32/52] fix: let a Python context start again after stop

---
 src/python/centaurus/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index bfce308..5f143d2 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -36,12 +36,12 @@ class SubprocessWorker:
     def __init__(self, context, core_affinity=-1):
         self.context = context
         self.master_pid = os.getpid()
-        self.proc = mp.Process(target=self.workloop)
         self.cmd_queue = mp.Queue()
         self.done_queue = mp.Queue()
         self.listener = None
         self.core_affinity = core_affinity
     def start(self):
+        self.proc = mp.Process(target=self.workloop)
         self.proc.start()
     def stop(self):
         self.cmd_queue.put(('stop', None))
-- 
2.43.0


From a09d2e70023fa6f14d8c7986022f770719766174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:00 +0000
Subject: [PATCH 33/52] fix: quote the names of drawn graphs

---
 src/core/CompositeATN.hpp | 2 +-
 src/core/DFA.hpp          | 2 +-
 src/core/Grammar.hpp      | 2 +-
 src/core/LookaheadDFA.hpp | 2 +-
 src/core/NFA.hpp          | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index 5b3a71a..9c6e29f 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -202,7 +202,7 @@ public:
     }
 	void print(std::wostream& os, const std::wstring& name) const
 	{
-		os << L"digraph " << name << L" {" << std::endl;
+		os << L"digraph \"" << name << L"\" {" << std::endl;
 		os << L"rankdir=\"LR\";" << std::endl;
 		os << L"graph [ charset=\"UTF-8\" ];" << std::endl;
 		os << L"node [ style=\"solid,filled\" ];" << std::endl;
diff --git a/src/core/DFA.hpp b/src/core/DFA.hpp
index 0112deb..63db607 100644
--- a/src/core/DFA.hpp
+++ b/src/core/DFA.hpp
@@ -154,7 +154,7 @@ public:
 	}
 	virtual void print(std::wostream& os, const std::wstring& graph_name) const override
 	{
-		os << L"digraph " << graph_name << L" {" << std::endl;
+		os << L"digraph \"" << graph_name << L"\" {" << std::endl;
 		os << L"rankdir=\"LR\";" << std::endl;
 		os << L"graph [ charset=\"UTF-8\", style=\"filled\" ];" << std::endl;
 		os << L"node [ style=\"solid,filled\" ];" << std::endl;
diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index 0fa0aa9..8b63628 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -79,7 +79,7 @@ public:
     }
 	void print(std::wostream& os, const Identifier& key, int maxdepth = 3) const
 	{
-		os << L"digraph " << key << L" {" << std::endl;
+		os << L"digraph \"" << key << L"\" {" << std::endl;
 		os << L"rankdir=\"LR\";" << std::endl;
 		os << L"graph [ charset=\"UTF-8\" ];" << std::endl;
 		os << L"node [ style=\"solid,filled\" ];" << std::endl;
diff --git a/src/core/LookaheadDFA.hpp b/src/core/LookaheadDFA.hpp
index 787ea31..d6d8ae5 100644
--- a/src/core/LookaheadDFA.hpp
+++ b/src/core/LookaheadDFA.hpp
@@ -265,7 +265,7 @@ public:
 	}
 	virtual void print(std::wostream& os, const std::wstring& graph_name) const override
 	{
-		os << L"digraph " << graph_name << L" {" << std::endl;
+		os << L"digraph \"" << graph_name << L"\" {" << std::endl;
 		os << L"rankdir=\"LR\";" << std::endl;
 		os << L"graph [ charset=\"UTF-8\", style=\"filled\" ];" << std::endl;
 		os << L"node [ style=\"solid,filled\" ];" << std::endl;
diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index ddb22e8..02c1ff1 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -259,7 +259,7 @@ public:
 	}
 	virtual void print(std::wostream& os, const std::wstring& graph_name) const
 	{
-		os << L"digraph " << graph_name << L" {" << std::endl;
+		os << L"digraph \"" << graph_name << L"\" {" << std::endl;
 		os << L"rankdir=\"LR\";" << std::endl;
 		os << L"graph [ charset=\"UTF-8\", style=\"filled\" ];" << std::endl;
 		os << L"node [ style=\"solid,filled\" ];" << std::endl;
-- 
2.43.0


From 81ced098225f6fc742fa6f72b0eca416f63582c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 34/52] fix: draw codes of characters with two digits

---
 src/core/CharClass.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/CharClass.cpp b/src/core/CharClass.cpp
index e20feac..080cb89 100644
--- a/src/core/CharClass.cpp
+++ b/src/core/CharClass.cpp
@@ -230,7 +230,7 @@ static std::wostream& printc(std::wostream& os, char ch)
 	if (!isgraph(ch))
 	{
 		wchar_t buf[16];
-		swprintf(buf, 16, L"\\\\x%0X", (int)ch);
+		swprintf(buf, 16, L"\\\\x%02X", (int)ch);
 		return os << buf;
 	}
 	else
@@ -255,7 +255,7 @@ static std::wostream& printc(std::wostream& os, wchar_t ch)
 	if (!iswgraph(ch))
 	{
 		wchar_t buf[16];
-		swprintf(buf, 16, L"\\\\x%0X", (wint_t)ch);
+		swprintf(buf, 16, L"\\\\x%02X", (wint_t)ch);
 		return os << buf;
 	}
 	else
@@ -274,7 +274,7 @@ static std::wostream& printc(std::wostream& os, wchar_t ch)
 static std::wostream& printc(std::wostream& os, char16_t ch)
 {
 	wchar_t buf[16];
-	swprintf(buf, 16, L"\\\\x%0X", ch);
+	swprintf(buf, 16, L"\\\\x%02X", ch);
 	return os << buf;
 }
 template<typename TCHAR>
-- 
2.43.0


From 2a3b4b4144b278c8128bd92df1fbddcca267b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:15 +0000
Subject: [PATCH 35/52] fix: draw the lookahead automaton of the ATN path asked
 for

---
 src/core/Grammar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index c1f3f62..32470b5 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -36,7 +36,7 @@ void Grammar<TCHAR>::print_ldfa(std::wostream& os, const ATNPath& path) const
 {
     CompositeATN<TCHAR> catn(*this);
 
-    LookaheadDFA<TCHAR> ldfa(catn, path);
+    LookaheadDFA<TCHAR> ldfa(catn, catn.convert_atn_path(path));
 
     ldfa.print(os, path.leaf_id().str());
 }
-- 
2.43.0


From 4e78dbbb091a2062f6f329087a6cd62e29f12fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 36/52] fix: give every drawn network names of its own

---
 src/core/ATN.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index 4ef6dd4..88f75d9 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -461,7 +461,7 @@ class ATNPrinter
 private:
 	std::pair<std::wstring, std::wstring> print_atn(std::wostream& os, int index, const Identifier& key)
 	{
-		std::wstring prefix = key + std::to_wstring(m_counter++);
+		std::wstring prefix = key + (L"_" + std::to_wstring(m_counter++));
 
 		os << L"subgraph cluster_" << prefix << L" {" << std::endl;
 
-- 
2.43.0


From d05ea31a20fbd9a038be78f891ec884fcdbebdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 37/52] fix: report a grammar file that cannot be opened

---
 src/core/Grammar.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 32470b5..b89cdef 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -45,6 +45,9 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 {
     std::wifstream grammar_file(filename, std::ios::in);
 
+    if (!grammar_file)
+        throw SimpleException(std::string("Cannot open the grammar file ") + filename);
+
     std::wstring grammar_str(std::istreambuf_iterator<wchar_t>(grammar_file), {});
 
     Stream stream(std::move(grammar_str));
-- 
2.43.0


From 2b1c481349987cc5e061f0ab8a260d1c7908e639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:07 +0000
Subject: [PATCH 38/52] fix: take the output file after the command too

---
 src/tool/main.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/tool/main.cpp b/src/tool/main.cpp
index 0d76de0..295b668 100644
--- a/src/tool/main.cpp
+++ b/src/tool/main.cpp
@@ -53,6 +53,14 @@ int main(int argc, char *argv[])
     int max_depth = 3;
 	bool help_flag = false, optimize_flag = false;
 
+    // accepted both before and after the command
+    const clipp::group outfile =
+        clipp::in_sequence
+        (
+            clipp::option("-f", "--outfile"),
+            clipp::value("outfile", output_path)
+        );
+
 	clipp::group cli =
     (
 		clipp::one_of
@@ -71,7 +79,8 @@ int main(int argc, char *argv[])
                         clipp::value("maxdepth", max_depth)
                     ),
                     clipp::option("--optimize").set(optimize_flag, true)
-                )
+                ),
+                outfile
             ),
             (
                 clipp::command("generate-catn").set(mode, GenerateCATN),
@@ -86,7 +95,8 @@ int main(int argc, char *argv[])
                         clipp::option("-m", "--machine"),
                         clipp::value("machine name", machine_name)
                     )
-                )
+                ),
+                outfile
             ),
             (
                 clipp::command("generate-nfa").set(mode, GenerateNFA),
@@ -109,7 +119,8 @@ int main(int argc, char *argv[])
                         clipp::required("-e").set(source, PatternStringSource),
                         clipp::value("Pattern string", pattern_string)
                     )
-                )
+                ),
+                outfile
             ),
             (
                 clipp::command("generate-ldfa").set(mode, GenerateLDFA),
@@ -124,7 +135,8 @@ int main(int argc, char *argv[])
                         clipp::required("-p", "--path"),
                         clipp::value("ATN path", atn_path)
                     )
-                )
+                ),
+                outfile
             ),
             (
                 clipp::command("generate-dfa").set(mode, GenerateDFA),
@@ -148,7 +160,8 @@ int main(int argc, char *argv[])
                         clipp::value("Pattern string", pattern_string)
                     )
                 ),
-                clipp::option("--optimize").set(optimize_flag, true)
+                clipp::option("--optimize").set(optimize_flag, true),
+                outfile
             ),
 			(
 				clipp::command("verify-grammar").set(mode, VerifyGrammar),
@@ -156,7 +169,8 @@ int main(int argc, char *argv[])
 				(
 					clipp::required("-g", "--grammar-file").set(source, GrammarFileSource),
 					clipp::value("grammar file", grammar_path)
-				)
+				),
+				outfile
 			)
         ),
 		clipp::option("-h", "--help").doc("Display this help message").set(help_flag),
-- 
2.43.0


From 6b9ecb2d3c4986df1b52dabffd33f20092627ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:21 +0000
Subject: [PATCH 39/52] fix: report an ATN path to a node that does not exist

---
 src/core/ATN.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index 88f75d9..db59ddf 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -269,7 +269,7 @@ public:
     }
     const ATNNode<TCHAR>& get_node(int index) const
     {
-        return m_nodes[index];
+        return m_nodes.at(index);
     }
     int get_node_num() const
     {
-- 
2.43.0


From 2579447902f403c7fe4ff7c99576fde1a53ef6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:02 +0000
Subject: [PATCH 40/52] fix: refuse text that cannot be converted instead of
 cutting it

---
 src/core/Encoding.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/Encoding.hpp b/src/core/Encoding.hpp
index bf02dc5..c6bb623 100644
--- a/src/core/Encoding.hpp
+++ b/src/core/Encoding.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include "Exception.hpp"
+
 namespace Centaurus
 {
 /*class EncodingException : public std::exception
@@ -40,7 +42,8 @@ public:
         const char *from_next;
         wchar_t *to_next;
 
-        m_forward_cvt.in(mb, &external[0], &external[external.size()], from_next, &internal[0], &internal[internal.size()], to_next);
+        if (m_forward_cvt.in(mb, &external[0], &external[external.size()], from_next, &internal[0], &internal[internal.size()], to_next) != std::codecvt_base::ok)
+            throw SimpleException("Error converting to wide characters: " + external);
 
         internal.resize(to_next - &internal[0]);
 
@@ -54,7 +57,8 @@ public:
         const wchar_t *from_next;
         char *to_next;
 
-        m_forward_cvt.out(mb, &internal[0], &internal[internal.size()], from_next, &external[0], &external[external.size()], to_next);
+        if (m_forward_cvt.out(mb, &internal[0], &internal[internal.size()], from_next, &external[0], &external[external.size()], to_next) != std::codecvt_base::ok)
+            throw SimpleException("Error converting from wide characters");
 
         external.resize(to_next - &external[0]);
 
-- 
2.43.0


From 1c5e1a51a6dba9c99ef88de0bbe313a25caaf949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:43 +0000
Subject: [PATCH 41/52] fix: refuse a depth that is no number

---
 src/tool/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/main.cpp b/src/tool/main.cpp
index 295b668..f4fc576 100644
--- a/src/tool/main.cpp
+++ b/src/tool/main.cpp
@@ -76,7 +76,7 @@ int main(int argc, char *argv[])
                     clipp::in_sequence
                     (
                         clipp::required("-d", "--max-depth"),
-                        clipp::value("maxdepth", max_depth)
+                        clipp::integer("maxdepth", max_depth)
                     ),
                     clipp::option("--optimize").set(optimize_flag, true)
                 ),
-- 
2.43.0


From feea3463312b251d542d46d0b55d1e436dbaaf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 42/52] fix: report output that cannot be written

---
 src/tool/main.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/tool/main.cpp b/src/tool/main.cpp
index f4fc576..78d646f 100644
--- a/src/tool/main.cpp
+++ b/src/tool/main.cpp
@@ -195,8 +195,17 @@ int main(int argc, char *argv[])
             if (!output_path.empty())
             {
                 output_file.open(output_path.c_str());
+                if (!output_file)
+                    throw SimpleException("Cannot open the output file " + output_path);
             }
             std::wostream& output_stream = output_path.empty() ? std::wcout : output_file;
+            auto finish_output = [&]() -> int
+            {
+                output_stream.flush();
+                if (!output_stream)
+                    throw SimpleException("Cannot write the output.");
+                return 0;
+            };
 
             if (source == GrammarFileSource)
             {
@@ -206,19 +215,19 @@ int main(int argc, char *argv[])
                 {
                 case GenerateATN:
                     grammar->print_grammar(output_stream, max_depth, optimize_flag);
-                    return 0;
+                    return finish_output();
                 case GenerateCATN:
                     grammar->print_catn(output_stream, Identifier(enc.mbstowcs(machine_name)));
-                    return 0;
+                    return finish_output();
                 case GenerateNFA:
                     grammar->print_nfa(output_stream, ATNPath(enc.mbstowcs(atn_path)));
-                    return 0;
+                    return finish_output();
                 case GenerateLDFA:
                     grammar->print_ldfa(output_stream, ATNPath(enc.mbstowcs(atn_path)));
-                    return 0;
+                    return finish_output();
                 case GenerateDFA:
                     grammar->print_dfa(output_stream, ATNPath(enc.mbstowcs(atn_path)), optimize_flag);
-                    return 0;
+                    return finish_output();
                 case VerifyGrammar:
                     if (!grammar->verify())
                     {
@@ -240,7 +249,7 @@ int main(int argc, char *argv[])
 
                         nfa.print(output_stream, L"NFA");
                     }
-                    return 0;
+                    return finish_output();
                     case GenerateDFA:
                     {
                         NFA<char> nfa(stream);
@@ -248,7 +257,7 @@ int main(int argc, char *argv[])
 
                         dfa.print(output_stream, L"DFA");
                     }
-                    return 0;
+                    return finish_output();
                 }
             }
         }
-- 
2.43.0


From 756115dec785a1fa706f6f70e64eb190fec8f1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:35 +0000
Subject: [PATCH 43/52] fix: require a grammar and a machine for generate-catn

---
 src/tool/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool/main.cpp b/src/tool/main.cpp
index 78d646f..7f6850d 100644
--- a/src/tool/main.cpp
+++ b/src/tool/main.cpp
@@ -87,12 +87,12 @@ int main(int argc, char *argv[])
                 (
                     clipp::in_sequence
                     (
-                        clipp::option("-g", "--grammar-file").set(source, GrammarFileSource),
+                        clipp::required("-g", "--grammar-file").set(source, GrammarFileSource),
                         clipp::value("grammar file", grammar_path)
                     ),
                     clipp::in_sequence
                     (
-                        clipp::option("-m", "--machine"),
+                        clipp::required("-m", "--machine"),
                         clipp::value("machine name", machine_name)
                     )
                 ),
-- 
2.43.0


From f3bf3bd9aaf603c36de26d061411cbab6f6a74c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:59 +0000
Subject: [PATCH 44/52] fix: refuse to draw the lookahead automaton of a token

---
 src/core/CompositeATN.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index 9c6e29f..bf9c5ed 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -550,7 +550,8 @@ public:
         for (unsigned int i = 0; i < transitions.size(); i++)
         {
             //All transitions originating from the root node must be epsilon transitions
-            assert(transitions[i].is_epsilon());
+            if (!transitions[i].is_epsilon())
+                throw SimpleException("The specified node is not a decision.");
 
             build_closure_inclusive(closure, path.replace_index(transitions[i].dest()), i + 1, stack, PriorityChain(path.leaf_id(), path.leaf_index(), transitions[i].tag()));
         }
-- 
2.43.0


From 20ba9b13a7b72cdd48569ce66dceaccda8c2d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:08 +0000
Subject: [PATCH 45/52] fix: number a rule that is there twice once

---
 src/core/Grammar.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index b89cdef..77ed5c5 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -116,14 +116,17 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
         }
         else
         {
-            ATNMachine<TCHAR> atn(machine_id++, stream);
+            ATNMachine<TCHAR> atn(machine_id, stream);
 
             if (m_root_id.str().empty())
                 m_root_id = id;
 
-            m_networks.insert(std::pair<Identifier, ATNMachine<TCHAR> >(id, std::move(atn)));
-
-            m_identifiers.push_back(id);
+            // a rule that is already there, of a file included twice, takes no number
+            if (m_networks.insert(std::pair<Identifier, ATNMachine<TCHAR> >(id, std::move(atn))).second)
+            {
+                m_identifiers.push_back(id);
+                machine_id++;
+            }
         }
 
         //m_networks.emplace(Identifier(stream), ATN<TCHAR>(stream));
-- 
2.43.0


From 22e35749e66adc1c3b5dec3c200cf1b3bc96b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:51 +0000
Subject: [PATCH 46/52] fix: raise a Python exception for what cannot be
 created

---
 src/pydll/PyCentaurus.cpp       | 42 ++++++++++++++++++++++++++-------
 src/python/centaurus/corelib.py | 19 +++++++++++----
 2 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/src/pydll/PyCentaurus.cpp b/src/pydll/PyCentaurus.cpp
index eab4765..763746a 100644
--- a/src/pydll/PyCentaurus.cpp
+++ b/src/pydll/PyCentaurus.cpp
@@ -21,9 +21,30 @@ namespace Centaurus
 namespace Centaurus __attribute__((visibility("default")))
 #endif
 {
+	/* Exceptions cannot pass through the C interface: a null handle is returned instead, with the message kept here. */
+	static std::string error_message;
+
+	template<typename F> static auto create_object(F create) -> decltype(create())
+	{
+		try
+		{
+			return create();
+		}
+		catch (const std::exception& ex)
+		{
+			error_message = ex.what();
+			return nullptr;
+		}
+	}
+
+	CENTAURUS_EXPORT(const char *) GetErrorMessage()
+	{
+		return error_message.c_str();
+	}
+
 	CENTAURUS_EXPORT(IGrammar *) GrammarCreate(const char *filename)
 	{
-		return new Grammar<unsigned char>(filename);
+		return create_object([&]() -> IGrammar * { return new Grammar<unsigned char>(filename); });
 	}
 
 	CENTAURUS_EXPORT(void) GrammarDestroy(IGrammar *grammar)
@@ -54,10 +75,13 @@ namespace Centaurus __attribute__((visibility("default")))
 
 		if (g_c)
 		{
-			if (dry)
-				return new DryParserEM64T<unsigned char>(*g_c);
-			else
-				return new ParserEM64T<unsigned char>(*g_c);
+			return create_object([&]() -> IParser *
+			{
+				if (dry)
+					return new DryParserEM64T<unsigned char>(*g_c);
+				else
+					return new ParserEM64T<unsigned char>(*g_c);
+			});
 		}
 
 		return nullptr;
@@ -73,7 +97,7 @@ namespace Centaurus __attribute__((visibility("default")))
 		Grammar<unsigned char> *g_c = dynamic_cast<Grammar<unsigned char> *>(grammar);
 
 		if (g_c)
-			return new ChaserEM64T<unsigned char>(*g_c);
+			return create_object([&]() -> IChaser * { return new ChaserEM64T<unsigned char>(*g_c); });
 
 		return nullptr;
 	}
@@ -85,7 +109,7 @@ namespace Centaurus __attribute__((visibility("default")))
 
 	CENTAURUS_EXPORT(Stage1Runner *) Stage1RunnerCreate(const char *filename, IParser *parser, size_t bank_size, int bank_num)
 	{
-		return new Stage1Runner(filename, parser, bank_size, bank_num);
+		return create_object([&]() -> Stage1Runner * { return new Stage1Runner(filename, parser, bank_size, bank_num); });
 	}
 
 	CENTAURUS_EXPORT(void) RunnerStart(BaseRunner *runner)
@@ -115,11 +139,11 @@ namespace Centaurus __attribute__((visibility("default")))
 
 	CENTAURUS_EXPORT(Stage2Runner *) Stage2RunnerCreate(const char *filename, size_t bank_size, int bank_num, int master_pid)
 	{
-		return new Stage2Runner(filename, bank_size, bank_num, master_pid);
+		return create_object([&]() -> Stage2Runner * { return new Stage2Runner(filename, bank_size, bank_num, master_pid); });
 	}
 
 	CENTAURUS_EXPORT(Stage3Runner *) Stage3RunnerCreate(const char *filename, size_t bank_size, int bank_num, int master_pid)
 	{
-		return new Stage3Runner(filename, bank_size, bank_num, master_pid);
+		return create_object([&]() -> Stage3Runner * { return new Stage3Runner(filename, bank_size, bank_num, master_pid); });
 	}
 }
diff --git a/src/python/centaurus/corelib.py b/src/python/centaurus/corelib.py
index 19fcd01..c6998bb 100644
--- a/src/python/centaurus/corelib.py
+++ b/src/python/centaurus/corelib.py
@@ -17,6 +17,13 @@ def load_dll():
 
 CoreLib = load_dll()
 
+CoreLib.GetErrorMessage.restype = ctypes.c_char_p
+
+def check_handle(handle):
+    if not handle:
+        raise RuntimeError(CoreLib.GetErrorMessage().decode('utf-8', 'replace'))
+    return handle
+
 EnumMachinesCallback = ctypes.CFUNCTYPE(None, ctypes.c_wchar_p, ctypes.c_int)
 
 class Grammar(object):
@@ -30,7 +37,8 @@ class Grammar(object):
     CoreLib.GrammarOptimize.argtypes = [ctypes.c_void_p]
 
     def __init__(self, filename):
-        self.handle = CoreLib.GrammarCreate(filename.encode('utf-8'))
+        self.handle = None
+        self.handle = check_handle(CoreLib.GrammarCreate(filename.encode('utf-8')))
         self.actions = []
         self.ids = {}
         CoreLib.GrammarEnumMachines(self.handle, EnumMachinesCallback(self.enum_machines_callback))
@@ -58,7 +66,8 @@ class Parser(object):
     CoreLib.ParserDestroy.argtypes = [ctypes.c_void_p]
 
     def __init__(self, grammar, dry = False):
-        self.handle = CoreLib.ParserCreate(grammar.handle, dry)
+        self.handle = None
+        self.handle = check_handle(CoreLib.ParserCreate(grammar.handle, dry))
 
     def __del__(self):
         CoreLib.ParserDestroy(self.handle)
@@ -69,7 +78,8 @@ class Chaser(object):
     CoreLib.ChaserDestroy.argtypes = [ctypes.c_void_p]
 
     def __init__(self, grammar):
-        self.handle = CoreLib.ChaserCreate(grammar.handle)
+        self.handle = None
+        self.handle = check_handle(CoreLib.ChaserCreate(grammar.handle))
 
     def __del__(self):
         CoreLib.ChaserDestroy(self.handle)
@@ -91,7 +101,8 @@ class BaseRunner(object):
     CoreLib.RunnerGetWindow.argtypes = [ctypes.c_void_p]
 
     def __init__(self, handle):
-        self.handle = handle
+        self.handle = None
+        self.handle = check_handle(handle)
 
     def __del__(self):
         CoreLib.RunnerDestroy(self.handle)
-- 
2.43.0


From fd78a58dedbc08f5867167f23a5a662fd95922cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:04 +0000
Subject: [PATCH 47/52] fix: refuse grammars with more rules than a marker can
 number

---
 src/core/Grammar.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 77ed5c5..da08da2 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -59,8 +59,9 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
         if (ch == L'\0')
             break;
 
-        if (machine_id >= 65536)
-            throw stream.toomany(65535);
+        // markers have 15 bits for the number of a rule
+        if (machine_id >= 32768)
+            throw stream.toomany(32767);
 
         Identifier id(stream);
 
-- 
2.43.0


From 52708bff20bc981101ad0865728873c140dd8ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:24 +0000
Subject: [PATCH 48/52] fix: do not take a grammar file for ended at an
 unreadable byte

---
 src/core/Grammar.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index da08da2..e6f895e 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -2,6 +2,10 @@
 #include "LookaheadDFA.hpp"
 #include "Encoding.hpp"
 
+#include <algorithm>
+#include <fstream>
+#include <locale>
+
 namespace
 {
 std::string make_include_path(const std::string& base_path, const std::string& dest_path)
@@ -43,12 +47,25 @@ void Grammar<TCHAR>::print_ldfa(std::wostream& os, const ATNPath& path) const
 template<typename TCHAR>
 int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 {
-    std::wifstream grammar_file(filename, std::ios::in);
+    std::ifstream grammar_file(filename, std::ios::in);
 
     if (!grammar_file)
         throw SimpleException(std::string("Cannot open the grammar file ") + filename);
 
-    std::wstring grammar_str(std::istreambuf_iterator<wchar_t>(grammar_file), {});
+    std::string grammar_bytes(std::istreambuf_iterator<char>(grammar_file), {});
+
+    // the text is readable up to a NUL or a byte that cannot be converted
+    const char *bytes = grammar_bytes.data();
+    const char *bytes_end = bytes + std::min(grammar_bytes.find('\0'), grammar_bytes.size());
+    const char *bytes_next = bytes;
+
+    std::wstring grammar_str(grammar_bytes.size(), L'\0');
+    wchar_t *str_next = &grammar_str[0];
+
+    std::mbstate_t mb{};
+    std::use_facet<std::codecvt<wchar_t, char, std::mbstate_t> >(std::locale())
+        .in(mb, bytes, bytes_end, bytes_next, &grammar_str[0], &grammar_str[0] + grammar_str.size(), str_next);
+    grammar_str.resize(str_next - &grammar_str[0]);
 
     Stream stream(std::move(grammar_str));
 
@@ -57,7 +74,11 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
         wchar_t ch = stream.skip_whitespace();
 
         if (ch == L'\0')
+        {
+            if (bytes_next != bytes + grammar_bytes.size())
+                throw stream.unexpected((unsigned char)*bytes_next);
             break;
+        }
 
         // markers have 15 bits for the number of a rule
         if (machine_id >= 32768)
-- 
2.43.0


From e57dc2c51a04b6476a3e158fa3347d80d573f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 49/52] fix: accept local ids up to the largest int

---
 src/core/ATN.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ATN.cpp b/src/core/ATN.cpp
index 26bff7e..ef77163 100644
--- a/src/core/ATN.cpp
+++ b/src/core/ATN.cpp
@@ -60,7 +60,7 @@ void ATNNode<TCHAR>::parse(Stream& stream)
         int id = 0;
         for (; L'0' <= ch && ch <= L'9'; ch = stream.peek())
         {
-            if (id > (std::numeric_limits<int>::max() - 9) / 10)
+            if (id > (std::numeric_limits<int>::max() - static_cast<int>(ch - L'0')) / 10)
                 throw stream.unexpected(ch);
             id = id * 10 + static_cast<int>(ch - L'0');
             stream.discard();
-- 
2.43.0


From 236b47c4039858d2d457e6082c2e611fe16454ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:27 +0000
Subject: [PATCH 50/52] fix: count negative value indices from the node's own
 values in Python

---
 src/python/centaurus/listener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/centaurus/listener.py b/src/python/centaurus/listener.py
index ddece13..ba098ef 100644
--- a/src/python/centaurus/listener.py
+++ b/src/python/centaurus/listener.py
@@ -49,7 +49,7 @@ class BaseListenerAdapter(object):
     def __len__(self):
         return self.argc
     def __getitem__(self, index):
-        return self.values[len(self.values) - self.argc + index]
+        return self.values[range(len(self.values) - self.argc, len(self.values))[index]]
     def __iter__(self):
         return (self.values[i] for i in range(len(self.values) - self.argc, len(self.values)))
 
-- 
2.43.0


From 2758d63b48d6d7192df164a1168cefc88127ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:16 +0000
Subject: [PATCH 51/52] fix: refuse grammar files that include themselves
 without end

---
 src/core/Grammar.cpp | 11 ++++++++++-
 src/core/Grammar.hpp |  3 +++
 src/core/Stream.hpp  |  8 ++++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index e6f895e..b7f0712 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -46,6 +46,11 @@ void Grammar<TCHAR>::print_ldfa(std::wostream& os, const ATNPath& path) const
 }
 template<typename TCHAR>
 int Grammar<TCHAR>::parse(const char *filename, int machine_id)
+{
+    return parse_file(filename, machine_id, 0);
+}
+template<typename TCHAR>
+int Grammar<TCHAR>::parse_file(const char *filename, int machine_id, int include_depth)
 {
     std::ifstream grammar_file(filename, std::ios::in);
 
@@ -132,9 +137,13 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
                 throw stream.unexpected(ch);
             stream.discard();
 
+            // a file that includes itself would be read without end
+            if (include_depth == MAX_INCLUDE_DEPTH)
+                throw stream.toodeep(+MAX_INCLUDE_DEPTH);
+
             Encoder enc{};
 
-            machine_id = parse(make_include_path(filename, enc.wcstombs(wide_path)), machine_id);
+            machine_id = parse_file(make_include_path(filename, enc.wcstombs(wide_path)).c_str(), machine_id, include_depth + 1);
         }
         else
         {
diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index 8b63628..13ad55e 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -53,6 +53,9 @@ template<typename TCHAR> class Grammar : public IGrammar
     Identifier m_root_id;
 	Identifier m_grammar_name;
     GrammarOptions m_options;
+
+    static constexpr int MAX_INCLUDE_DEPTH = 100;
+    int parse_file(const char *filename, int machine_id, int include_depth);
 public:
     int parse(const char *filename, int machine_id = 1);
     int parse(const std::string& filename, int machine_id = 1);
diff --git a/src/core/Stream.hpp b/src/core/Stream.hpp
index 9d3f913..f4e509f 100644
--- a/src/core/Stream.hpp
+++ b/src/core/Stream.hpp
@@ -195,6 +195,14 @@ public:
 
         stream << "Line " << m_line << ", Pos " << m_pos << ": The number of rules exceeded " << std::dec << count;
 
+        return StreamException(stream.str());
+    }
+    StreamException toodeep(int depth)
+    {
+        std::ostringstream stream;
+
+        stream << "Line " << m_line << ", Pos " << m_pos << ": Files are included more than " << std::dec << depth << " levels deep";
+
         return StreamException(stream.str());
     }
 };
-- 
2.43.0


From 15dc138ef122bf0f21d838718712a129516fbfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:06 +0000
Subject: [PATCH 52/52] fix: let the end of the input settle decisions

---
 src/core/CompositeATN.hpp | 11 +++++++++++
 src/core/LookaheadDFA.hpp |  3 ++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index bf9c5ed..7625817 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -181,6 +181,15 @@ public:
 
         import_atn_node(atn, 0, -1, node_map, 0);
     }
+    /*!
+     * @brief Construct the caller of the root machine, which expects nothing but the end of the input after it
+     */
+    explicit CATNMachine(const Identifier& root_id)
+    {
+        int origin = import_nonterminal(root_id, -1, 0);
+        origin = import_whitespace(CharClass<TCHAR>({u' ', u'\t', u'\r', u'\n'}), origin, 0);
+        add_node(CharClass<TCHAR>(0, 1), origin, 0);
+    }
     virtual ~CATNMachine()
     {
     }
@@ -480,6 +489,8 @@ public:
         {
             m_dict.emplace(p.first, CATNMachine<TCHAR>(p.second));
         }
+        //No rule can have this name
+        m_dict.emplace(Identifier(L"$"), CATNMachine<TCHAR>(grammar.get_root_id()));
     }
     virtual ~CompositeATN()
     {
diff --git a/src/core/LookaheadDFA.hpp b/src/core/LookaheadDFA.hpp
index d6d8ae5..5e76fce 100644
--- a/src/core/LookaheadDFA.hpp
+++ b/src/core/LookaheadDFA.hpp
@@ -237,7 +237,8 @@ public:
 	}
 	int run(const std::basic_string<TCHAR>& seq, int index = 0, int input_pos = 0) const
 	{
-		if (input_pos == seq.size())
+		//The terminating zero is a symbol, too
+		if (input_pos > seq.size())
 		{
 			return -1;
 		}
-- 
2.43.0

