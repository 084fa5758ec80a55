From f7a2ca3d9f737861c3a73a339f0dc401f43b545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:52 +0000
Subject: [PATCH 1/8] fix: do not look for an initial consonant after a final
 leading vowel

A word ending in a leading vowel other than SARA E made MatchInitCons()
fail its assertion.  Give up on such a stretch as ParseSaraE() does.
---
 parser/parser.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index 6641bd0..d69a4a8 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -1498,6 +1498,10 @@ ParseOtherLV (const u16string& u16word, const ParseState& state,
     assert (th_wcisldvowel (u16word.at (state.pos)));
     assert (UTH_SARA_E != u16word.at (state.pos));
 
+    if (state.pos + 1 >= state.stopPos) {
+        return;
+    }
+
     auto ldv = u16word.at (state.pos);
 
     list<PartialSyl> partialSyls = MatchInitCons (u16word, state.pos + 1,
-- 
2.43.0


From 9bb647689fe9144c8dec175d45648d316a9e15ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:52 +0000
Subject: [PATCH 2/8] fix: write an empty JSON array for a word without
 pronunciation

The first element was written unconditionally, so the end iterator of an
empty list was dereferenced when nothing could be parsed.
---
 output/output-json.cxx | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/output/output-json.cxx b/output/output-json.cxx
index f37fbb9..ab8ceeb 100644
--- a/output/output-json.cxx
+++ b/output/output-json.cxx
@@ -11,10 +11,12 @@ JsonOutput::output (const SylString& sylStr) const
 {
     string outStr;
 
-    auto i = sylStr.begin();
-    outStr = "[\"" + mSylOutput->output (*i) + "\"";
-    while (++i != sylStr.end()) {
-        outStr += ",\"" + mSylOutput->output (*i) + "\"";
+    outStr = "[";
+    for (auto i = sylStr.begin(); i != sylStr.end(); ++i) {
+        if (i != sylStr.begin()) {
+            outStr += ",";
+        }
+        outStr += "\"" + mSylOutput->output (*i) + "\"";
     }
     outStr += "]";
 
@@ -27,10 +29,11 @@ JsonOutput::output (const list<SylString>& strList) const
     string outStr;
 
     outStr = "[";
-    auto i = strList.begin();
-    outStr += output (*i);
-    while (++i != strList.end()) {
-        outStr += "," + output (*i);
+    for (auto i = strList.begin(); i != strList.end(); ++i) {
+        if (i != strList.begin()) {
+            outStr += ",";
+        }
+        outStr += output (*i);
     }
     outStr += "]";
 
-- 
2.43.0


From b56c967d74caf2d41941a54d8d76bfb4c6276d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:52 +0000
Subject: [PATCH 3/8] fix: escape quotes, backslashes and control characters in
 JSON output

Literal text is copied into the JSON strings and may contain them.
---
 output/output-json.cxx | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/output/output-json.cxx b/output/output-json.cxx
index ab8ceeb..3660f2a 100644
--- a/output/output-json.cxx
+++ b/output/output-json.cxx
@@ -6,6 +6,28 @@
 
 using namespace std;
 
+static string
+EscapeJson (const string& str)
+{
+    static const char hexDigits[] = "0123456789abcdef";
+    string escStr;
+
+    for (unsigned char c : str) {
+        if ('"' == c || '\\' == c) {
+            escStr += '\\';
+            escStr += c;
+        } else if (c < 0x20) {
+            escStr += "\\u00";
+            escStr += hexDigits[c >> 4];
+            escStr += hexDigits[c & 0x0f];
+        } else {
+            escStr += c;
+        }
+    }
+
+    return escStr;
+}
+
 string
 JsonOutput::output (const SylString& sylStr) const
 {
@@ -16,7 +38,7 @@ JsonOutput::output (const SylString& sylStr) const
         if (i != sylStr.begin()) {
             outStr += ",";
         }
-        outStr += "\"" + mSylOutput->output (*i) + "\"";
+        outStr += "\"" + EscapeJson (mSylOutput->output (*i)) + "\"";
     }
     outStr += "]";
 
-- 
2.43.0


From 3d4e6a845d230837793758b4c7289800ac46aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:52 +0000
Subject: [PATCH 4/8] fix: keep inserting hyphens in romanization after a blank

The flag telling that a new word has just begun was never reset, so no
hyphen was written in the rest of the string.  A blank in first position
also begins a word, and an empty string has nothing to write.
---
 output/output-roman.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/output/output-roman.cxx b/output/output-roman.cxx
index b0e8f57..6a33c1e 100644
--- a/output/output-roman.cxx
+++ b/output/output-roman.cxx
@@ -14,11 +14,14 @@ RomanOutput::output (const SylString& sylStr) const
     string outStr;
 
     auto i = sylStr.begin();
+    if (i == sylStr.end()) {
+        return outStr;
+    }
     outStr = mRomanSylOutput.output (*i);
     if (mIsCapitalize) {
         outStr[0] = toupper (outStr[0]);
     }
-    bool isBegin = false;
+    bool isBegin = (*i == Syl::Blank);
     for (auto prev = i++; i != sylStr.end(); prev = i++) {
         if (*i == Syl::Blank) {
             outStr += " ";
@@ -37,6 +40,7 @@ RomanOutput::output (const SylString& sylStr) const
             outStr += '-';
         }
         outStr += mRomanSylOutput.output (*i);
+        isBegin = false;
     }
 
     return outStr;
-- 
2.43.0


From 0b71530bdfd1d9c0b9124a9e5d7b64a3a8bd3150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:52 +0000
Subject: [PATCH 5/8] fix: recognise --help at any position

The first argument was compared instead of the current one.
---
 thpronun/thpronun.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index 66815fd..b03d58b 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -201,7 +201,7 @@ main (int argc, const char* argv[])
                 if (strcmp (argv[i]+2, "version") == 0) {
                     Version (argv[0]);
                     return 1;
-                } else if (strcmp (argv[1]+2, "help") == 0) {
+                } else if (strcmp (argv[i]+2, "help") == 0) {
                     Usage (argv[0]);
                     return 1;
                 } else {
-- 
2.43.0


From 0b8a555ffa8e1e78f46274a23fcf64e292c21822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:52 +0000
Subject: [PATCH 6/8] fix: leave the dictionary empty when loading its data
 fails

A truncated file left the trie without data, and the next match
dereferenced a null pointer.  A negative data size is rejected too.
---
 dict/dict.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index 7d32077..d849656 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -27,7 +27,7 @@ static char*
 ReadDataBank (FILE* input)
 {
     int bankSize;
-    if (!ReadInt32 (input, bankSize))
+    if (!ReadInt32 (input, bankSize) || bankSize < 0)
         return nullptr;
 
     char* data = new char[bankSize];
@@ -52,7 +52,12 @@ Dict::open (const char* dictPath)
     mData = ReadDataBank (dictFile);
 
     fclose (dictFile);
-    return mTrie != nullptr && mData != nullptr;
+
+    if (!mTrie || !mData) {
+        close();
+        return false;
+    }
+    return true;
 }
 
 void
-- 
2.43.0


From 30f8e9468164006f6281269f145b5a6f0742f7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:52 +0000
Subject: [PATCH 7/8] fix: do not look before the line buffer for a line
 starting with NUL

---
 dict/gen-lookup-dict.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index 12b608f..e9f4f50 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -190,7 +190,7 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
 
     /* trim newline */
     lineLeft = strlen (line);
-    if (line[lineLeft - 1] == '\n') {
+    if (lineLeft > 0 && line[lineLeft - 1] == '\n') {
         line[--lineLeft] = '\0';
     }
 
-- 
2.43.0


From ed3ff9e31c6bcf84146202a767318f1607a49110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:50 +0000
Subject: [PATCH 8/8] fix: do not match a dictionary word again at a NUL that
 follows it

The trie walks from a stored word to its terminator on character 0, so a NUL
in the text right after a word made the word match twice, the second time one
character too long.
---
 dict/dict.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index d849656..c9f04a8 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -104,6 +104,7 @@ Match::findNext()
         return false;
 
     while (mCurPos < mWord.size()
+           && mWord[mCurPos] // the trie takes NUL for the end of the key
            && trie_state_walk (mTrieState, mWord[mCurPos]))
     {
         ++mCurPos;
-- 
2.43.0

