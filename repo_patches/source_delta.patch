From 0c69b148e82e7b06e063867ceeb92b9fa91a36e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:46 +0000
Subject: [PATCH 01/42] fix: charge unmatched leading query letters the
 insertion error

The first row of the error matrix was filled with the deletion error.  Any
configuration in which the two differ hit the assertion right below, or,
with assertions compiled out, computed wrong distances for queries with
extra letters at the start.
---
 src/LevenshteinIndex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index b144e87..7e532b3 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -105,7 +105,7 @@ void LevenshteinIndex::findWords(const Word &query, const ErrorValues &e, const
     TrieOffset root;
     TrieOffset sibling;
     ErrorMatrix em(p->longestWordLength+1, query.length()+1,
-            e.getDeletionError(), e.getStartInsertionError(query.length()));
+            e.getInsertionError(), e.getStartInsertionError(query.length()));
 
     assert(em.get(0, 0) == 0);
     if(query.length() > 0)
-- 
2.43.0


From 3fa8782081d596802e1af5f26ef0ee5437c360ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 02/42] fix: return the relevancy from
 col_match_results_get_relevancy

It returned the document ID converted to double.
---
 src/ColumbusCAPI.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ColumbusCAPI.cc b/src/ColumbusCAPI.cc
index 5fd3bbf..d405f69 100644
--- a/src/ColumbusCAPI.cc
+++ b/src/ColumbusCAPI.cc
@@ -203,9 +203,9 @@ DocumentID col_match_results_get_id(ColMatchResults mr, size_t i) {
 double col_match_results_get_relevancy(ColMatchResults mr, size_t i) {
     try {
         MatchResults *results = reinterpret_cast<MatchResults*>(mr);
-        return results->getDocumentID(i);
+        return results->getRelevancy(i);
     } catch(exception &e) {
-        fprintf(stderr, "Exception when getting result document ID: %s\n", e.what());
+        fprintf(stderr, "Exception when getting result relevancy: %s\n", e.what());
     }
     return -1.0;
 }
-- 
2.43.0


From 8fe8c57bb3d4984489a14c0b8d71464b6f75a012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 03/42] fix: do not prune branches that a cheap transposition
 can still reach

A transposition is computed from two rows back, so a row whose smallest
error is over the limit does not rule out the next one when transposing
costs less than the other operations.
---
 src/LevenshteinIndex.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index 7e532b3..7ee29e4 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -154,7 +154,8 @@ void LevenshteinIndex::searchRecursive(const Word &query, TrieOffset node, const
     if(em.totalError(depth) <= maxError && p->trie.getWordID(node) != INVALID_WORDID) {
         matches.addMatch(query, p->trie.getWordID(node), em.totalError(depth));
     }
-    if(em.minError(depth) <= maxError) {
+    // A transposition skips one row, so the previous row also matters.
+    if(em.minError(depth) <= maxError || em.minError(depth-1) + e.getTransposeError() <= maxError) {
         TrieOffset sibling = p->trie.getSiblingList(node);
         while(sibling != 0) {
             Letter l = p->trie.getLetter(sibling);
-- 
2.43.0


From 15ea3b1b116005b79c78cbc084af7ad1c2006d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 04/42] fix: do not write past the end of the buffer in
 internalToUtf8

When the converted text filled the buffer exactly, the terminating null
character was written one byte past its end (also for a zero size buffer).
---
 src/ColumbusHelpers.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 7d916ed..2be52a0 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -104,8 +104,12 @@ void internalToUtf8(const Letter* source, unsigned int characters, char *buf, un
         throw std::runtime_error("Could not create iconv converter.");
     }
 
+    if(bufsize == 0) {
+        iconv_close(ic);
+        throw std::runtime_error("No room for a null terminator in the output buffer.");
+    }
     inBytes = characters*sizeof(Letter);
-    outBytes = bufsize;
+    outBytes = bufsize - 1; // Leave room for the null terminator.
     outBytesOriginal = outBytes;
 
     outBuf = buf;
-- 
2.43.0


From 6ce08d52d309daa572e3a82d3fdfaf4675059ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 05/42] fix: reject every kind of broken surrogate pair in Word

Two high surrogates in a row hit an assertion instead of being refused, and
a high surrogate as the last letter was accepted.
---
 src/Word.cc | 32 +++++---------------------------
 1 file changed, 5 insertions(+), 27 deletions(-)

diff --git a/src/Word.cc b/src/Word.cc
index 98e9d30..46ce8a6 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -166,37 +166,15 @@ bool Word::hasWhitespace() {
  * Verify that we don't.
  */
 bool Word::hasBrokenSurrogates() {
-    bool expectSurrogate = false;
-    bool expectHigh = true;
+    bool expectLow = false;
     for(unsigned int i=0; i < len; ++i) {
-       Letter cur = text[i];
-	if(expectSurrogate && !cur.isSurrogate()) {
+        Letter cur = text[i];
+        if(cur.isLowSurrogate() != expectLow) {
             return true;
-	}
-
-        if(cur.isSurrogate()) {
-            if(expectHigh && !cur.isHighSurrogate()) {
-                return true;
-            }
-
-            assert(expectHigh || (!expectHigh && cur.isLowSurrogate()));
-            if(expectHigh) {
-                expectHigh = false;
-                expectSurrogate = true;
-            }
-            else { // Low surrogate
-                expectHigh = true;
-                expectSurrogate = false;
-            }
-        }
-#if 0
-        else {
-            expectHigh = true;
-            expectSurrogate = false;
         }
-#endif /* 0 */
+        expectLow = cur.isHighSurrogate();
     }
-    return false;
+    return expectLow; // The last letter must not be half a pair.
 }
 
 bool Word::operator==(const Word &w) const {
-- 
2.43.0


From 531a1752cc4050bf1d253f9418906c43d9933fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 06/42] fix: keep Word usable when an assignment is refused

After a refused string (one with whitespace) the word had no text but kept
the length of the refused string, so any later use read a null pointer.
---
 src/Word.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Word.cc b/src/Word.cc
index 46ce8a6..bcc30ea 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -94,6 +94,7 @@ void Word::convertString(const char *utf8Word) {
     if(hasWhitespace()) {
         delete []text;
         text = nullptr;
+        len = 0;
         std::string err("Tried to create a word with whitespace in it: ");
         err += (const char*)utf8Word;
         throw std::invalid_argument(err);
@@ -101,6 +102,7 @@ void Word::convertString(const char *utf8Word) {
     else if(hasBrokenSurrogates()) {
         delete []text;
         text = nullptr;
+        len = 0;
         std::string err("Tried to create a word with broken surrogates in it: ");
         err += (const char*)utf8Word;
         throw std::invalid_argument(err);
-- 
2.43.0


From a58f631b41435b1289dce29241ed84c0b862923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 07/42] fix: do not read before the array when creating a Word
 from no letters

---
 src/Word.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Word.cc b/src/Word.cc
index bcc30ea..39f3c68 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -60,7 +60,7 @@ Word::Word(Word &&w) :
 }
 
 Word::Word(Letter *letters, size_t length) {
-    if(letters[length-1] == 0) {
+    if(length > 0 && letters[length-1] == 0) {
         text = new Letter[length];
         len = length-1;
     } else {
-- 
2.43.0


From 3ee6c447da7d55520f6155e96461c865fdbbb10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 08/42] fix: free conversion and splitting buffers when text is
 malformed

utf8ToInternal leaked its output buffer when iconv refused the text, and
split leaked its word buffer for every exception except invalid_argument.
---
 src/ColumbusHelpers.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 2be52a0..578c853 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -70,6 +70,7 @@ Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
     free(tmp);
     iconv_close(ic);
     if(badConvertedCharacters == (size_t)-1) {
+        delete []txt;
         std::string err("Could not convert UTF8-string to internal representation: ");
         err += (const char*)(utf8Text);
         throw std::runtime_error(err);
@@ -173,9 +174,9 @@ WordList split(const char *utf8Text, const Letter *splitChars, int numChars) {
         try {
             Word w(word);
             list.addWord(w);
-        } catch(std::invalid_argument &ex) {
+        } catch(...) {
             delete []word;
-            throw ex;
+            throw;
         }
     } while(end < strSize);
     delete []word;
-- 
2.43.0


From db3e3e30517389ea2d971059611d520d1c3e2d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 09/42] fix: unmap the trie storage when a Trie is destroyed

Closing the backing file does not remove its mapping, so every destroyed
trie leaked its memory. The constructor also leaked when it failed.
---
 src/Trie.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index 0710356..ea3d3e6 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -77,10 +77,17 @@ Trie::Trie() {
     if(!p->f) {
         string msg("Could not create temporary file: ");
         msg += strerror(errno);
+        delete p;
         throw runtime_error(msg);
     }
     p->map = nullptr;
-    expand();
+    try {
+        expand();
+    } catch(...) {
+        fclose(p->f);
+        delete p;
+        throw;
+    }
     p->h->firstFree = sizeof(TrieHeader);
     p->root = p->h->firstFree;
     p->h->numWords = 0;
@@ -89,6 +96,7 @@ Trie::Trie() {
 
 
 Trie::~Trie() {
+    munmap(p->map, p->h->totalSize);
     fclose(p->f);
     delete p;
 }
-- 
2.43.0


From ef8196455c39a03df7c5fe806539b9319626b217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 10/42] fix: keep the trie usable when growing its storage
 fails

expand unmapped the current storage before enlarging the file and mapping it
again, so a failure (such as a full disk) left the trie pointing to unmapped
memory and the next access crashed. Release the old mapping last.
---
 src/Trie.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index ea3d3e6..f858574 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -102,15 +102,11 @@ Trie::~Trie() {
 }
 
 void Trie::expand() {
+    TrieOffset oldSize = 0;
     TrieOffset newSize;
     if(p->map) {
-        TrieOffset oldSize = p->h->totalSize;
+        oldSize = p->h->totalSize;
         newSize = oldSize*2;
-        if(munmap(p->map, oldSize) != 0) {
-            string err = "Munmap failed: ";
-            err += strerror(errno);
-            throw runtime_error(err);
-        }
     } else {
         newSize = 1024;
     }
@@ -119,13 +115,18 @@ void Trie::expand() {
         err += strerror(errno);
         throw runtime_error(err);
     }
-    p->map = (char*)mmap(NULL, newSize, PROT_READ | PROT_WRITE, MAP_SHARED,
+    char *newMap = (char*)mmap(NULL, newSize, PROT_READ | PROT_WRITE, MAP_SHARED,
                   fileno(p->f), 0);
-    if(p->map == MAP_FAILED) {
+    if(newMap == MAP_FAILED) {
         string err = "MMap failed: ";
         err += strerror(errno);
         throw runtime_error(err);
     }
+    // Only let go of the old mapping when nothing can fail any more.
+    if(p->map && munmap(p->map, oldSize) != 0) {
+        fprintf(stderr, "Munmap failed: %s\n", strerror(errno));
+    }
+    p->map = newMap;
     if(madvise(p->map, newSize, MADV_RANDOM | MADV_WILLNEED) != 0) {
         fprintf(stderr, "Problem with madvise: %s\n", strerror(errno));
     }
-- 
2.43.0


From ca9362c9a0662e71cd8f20d51f6c7145db1b8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 11/42] fix: accept the empty word in Trie::insertWord

The surrogate check read the first letter without looking at the length, so
indexing a document with an empty word or field name threw out_of_range.
---
 src/Trie.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index f858574..933cc72 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -178,12 +178,9 @@ TrieOffset Trie::addNewSibling(const TrieOffset node, const TrieOffset sibling,
 TrieOffset Trie::insertWord(const Word &word, const WordID wordID) {
     size_t i=0;
     TrieOffset node = p->root;
-    Letter lw = word[0];
 
     // A word mustn't begin with a broken surrogate pair.
-    if(lw.isSurrogate() && !lw.isHighSurrogate()) {
-        assert(false);
-    }
+    assert(word.length() == 0 || !word[0].isLowSurrogate());
 
     while(word.length() > i) {
         Letter l = word[i];
-- 
2.43.0


From ff1c019317884268b97905f494e3ba1bbe605b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 12/42] fix: do not register filter words when searching

Looking up the IDs of filter fields and words with getID added unknown ones
to the word store, so a search changed what later calls accept as a known
index name.
---
 src/Matcher.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Matcher.cc b/src/Matcher.cc
index 726d92d..41a666d 100644
--- a/src/Matcher.cc
+++ b/src/Matcher.cc
@@ -237,7 +237,8 @@ static bool subtermsMatch(MatcherPrivate *p, const ResultFilter &filter, size_t
     for(size_t subTerm=0; subTerm < filter.numSubTerms(term); subTerm++) {
         const Word &filterName = filter.getField(term, subTerm);
         const Word &value = filter.getWord(term, subTerm);
-        bool termFound = p->reverseIndex.documentHasTerm(
+        bool termFound = p->store.hasWord(value) && p->store.hasWord(filterName) &&
+                p->reverseIndex.documentHasTerm(
                 p->store.getID(value), p->store.getID(filterName), id);
         if(!termFound) {
             return false;
-- 
2.43.0


From d029848d0e477fc5da806422dadb5a9227ce9cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 13/42] fix: make substitution error lookups independent of the
 letter values

The lookup table used for letters below 512 was not kept in line with the
full rules: a group set after an individual error replaced it, and setting
the error of a letter against itself made equal letters differ.
---
 include/ErrorValues.hh | 2 +-
 src/ErrorValues.cc     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ErrorValues.hh b/include/ErrorValues.hh
index 76686b3..054ae35 100644
--- a/include/ErrorValues.hh
+++ b/include/ErrorValues.hh
@@ -53,7 +53,7 @@ private:
 
     void clearLUT();
     void addToLUT(Letter l1, Letter l2, int value);
-    void addGroupErrorToLUT(const Word &groupLetters, const int error);
+    void addGroupErrorToLUT(const Word &groupLetters);
     int substituteErrorSlow(Letter l1, Letter l2) const;
     void setPadError(const Letter number, const char letters[4], int letterCount, int error);
 
diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 870c730..d030f32 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -87,7 +87,7 @@ void ErrorValues::setError(Letter l1, Letter l2, const int error) {
     }
     pair<Letter, Letter> in(l1, l2);
     p->singleErrors[in] = error;
-    addToLUT(l1, l2, error);
+    addToLUT(l1, l2, substituteErrorSlow(l1, l2));
 }
 
 int ErrorValues::getSubstituteError(Letter l1, Letter l2) const {
@@ -143,19 +143,19 @@ void ErrorValues::setGroupError(const Word &groupLetters, const int error) {
             p->groupMap[curLetter] = newGroupID;
         }
     }
-    addGroupErrorToLUT(groupLetters, error);
+    addGroupErrorToLUT(groupLetters);
 
     debugMessage("Added error group: %s\n", groupLetters.asUtf8().c_str());
 }
 
-void ErrorValues::addGroupErrorToLUT(const Word &groupLetters, const int error) {
+void ErrorValues::addGroupErrorToLUT(const Word &groupLetters) {
     for(size_t i=0; i<groupLetters.length(); i++) {
         for(size_t j=i; j<groupLetters.length(); j++) {
             Letter l1 = groupLetters[i];
             Letter l2 = groupLetters[j];
             if(l1 == l2)
                 continue;
-            addToLUT(l1, l2, error);
+            addToLUT(l1, l2, substituteErrorSlow(l1, l2));
         }
     }
 }
-- 
2.43.0


From e2cf2b42a50501b21782733ea7136e9732cd5b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 14/42] fix: leave the error groups alone when a new group is
 refused

A group with a letter that already belongs to another group was refused half
way, which left its first letters in a group of their own.
---
 src/ErrorValues.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index d030f32..086afd7 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -132,16 +132,14 @@ void ErrorValues::clearErrors() {
 }
 
 void ErrorValues::setGroupError(const Word &groupLetters, const int error) {
+    for(size_t i = 0; i < groupLetters.length(); i++) {
+        if(isInGroup(groupLetters[i]))
+            throw runtime_error("Tried to add letter to two different error groups.");
+    }
     size_t newGroupID = p->groupErrors.size();
     p->groupErrors.push_back(error);
     for(size_t i = 0; i < groupLetters.length(); i++) {
-        Letter curLetter = groupLetters[i];
-        if(isInGroup(curLetter)) {
-            if(p->groupMap.find(curLetter)->second != newGroupID)
-                throw runtime_error("Tried to add letter to two different error groups.");
-        } else {
-            p->groupMap[curLetter] = newGroupID;
-        }
+        p->groupMap[groupLetters[i]] = newGroupID;
     }
     addGroupErrorToLUT(groupLetters);
 
-- 
2.43.0


From 1b1a7ebb08d44c4c4357d771789689936b944bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 15/42] fix: give neighbouring keys of the bottom row the typo
 error

The loop over keyboard rows skipped the last one entirely, because it has no
row below it.
---
 src/ErrorValues.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 086afd7..4a9ce14 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -196,13 +196,15 @@ void ErrorValues::addKeyboardErrors() {
 
     const Letter *keyboard_layout[4] = {line1, line2, line3, line4};
     const size_t lineLens[] = {11, 11, 12, 10};
-    for(size_t i = 0; i < 3; i++) {
+    for(size_t i = 0; i < 4; i++) {
         const Letter *cur_row = keyboard_layout[i];
-        const Letter *next_row = keyboard_layout[i+1];
         for(size_t j1=0; j1 < lineLens[i]; j1++) {
             Letter l1 = cur_row[j1];
             if(j1 + 1 < lineLens[i])
                 setError(l1, cur_row[j1+1], error);
+            if(i + 1 >= 4)
+                continue;
+            const Letter *next_row = keyboard_layout[i+1];
             if(j1 > 0 && j1-1 < lineLens[i+1])
                 setError(l1, next_row[j1-1], error);
             if(j1 < lineLens[i+1])
-- 
2.43.0


From 4e196f7338a547b1b57d3efeee0bbbe03dba9a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 16/42] fix: treat all neighbouring number pad buttons alike

Buttons in the first column and row were not considered neighbours of those
to the right of and below them, although the reverse holds.
---
 src/ErrorValues.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 4a9ce14..0d8165a 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -248,11 +248,11 @@ void ErrorValues::addNumberpadErrors() {
     for(int j=0; j<h; j++) {
         for(int i=0; i<w; i++) {
             setPadError(padNumbers[j][i], padLetters[j][i], letterCount[j][i], sameButton);
-            if(i-1 > 0)
+            if(i-1 >= 0)
                 setPadError(padNumbers[j][i], padLetters[j][i-1], letterCount[j][i-1], adjacentButton);
             if(i+1 < w)
                 setPadError(padNumbers[j][i], padLetters[j][i+1], letterCount[j][i+1], adjacentButton);
-            if(j-1 > 0)
+            if(j-1 >= 0)
                 setPadError(padNumbers[j][i], padLetters[j-1][i], letterCount[j-1][i], adjacentButton);
             if(j+1 < h)
                 setPadError(padNumbers[j][i], padLetters[j+1][i], letterCount[j+1][i], adjacentButton);
-- 
2.43.0


From d72970b9dfb889ac812b38d5f184e661238f29db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 17/42] fix: copy the result shown at the given position in
 copyResult

The other list was indexed before it had been sorted, so unless it had been
read already a different result was copied.
---
 src/MatchResults.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MatchResults.cc b/src/MatchResults.cc
index c08d762..d4ce1d1 100644
--- a/src/MatchResults.cc
+++ b/src/MatchResults.cc
@@ -88,6 +88,7 @@ void MatchResults::copyResult(const MatchResults &other, const size_t i) {
     if(i >= other.p->results.size()) {
         throw out_of_range("Tried to copy an out-of-range result.");
     }
+    other.sortIfRequired();
     p->results.push_back(other.p->results[i]);
     p->sorted = false;
 }
-- 
2.43.0


From c50e5ccb1d9373c490ae46d766e0ad01b3416392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 18/42] fix: allow assigning to moved-from MatchResults and
 WordLists

The move operations leave the source without its private data, which copy
assignment then wrote to.
---
 src/MatchResults.cc | 2 ++
 src/WordList.cc     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/MatchResults.cc b/src/MatchResults.cc
index d4ce1d1..25a9481 100644
--- a/src/MatchResults.cc
+++ b/src/MatchResults.cc
@@ -61,6 +61,8 @@ const MatchResults& MatchResults::operator=(MatchResults &&other) {
 
 const MatchResults& MatchResults::operator=(const MatchResults &other) {
     if(this != &other) {
+        if(!p)
+            p = new MatchResultsPrivate();
         *p = *other.p;
     }
     return *this;
diff --git a/src/WordList.cc b/src/WordList.cc
index 8fec94a..6f7ee3c 100644
--- a/src/WordList.cc
+++ b/src/WordList.cc
@@ -64,6 +64,8 @@ void WordList::addWord(const Word &w) {
 const WordList& WordList::operator=(const WordList &l) {
     if(this == &l)
         return *this;
+    if(!p)
+        p = new WordListPrivate();
     p->words = l.p->words;
     return *this;
 }
-- 
2.43.0


From b4587b9d8ee4de63c1b951938fa7245652c29b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 19/42] fix: do not let configuration objects and matchers be
 copied shallowly

Assignment was already deleted but the implicit copy constructors were not,
so a copy shared the private data and destroying both freed it twice. The
Python bindings exposed those copies too.
---
 include/ErrorValues.hh      | 1 +
 include/IndexWeights.hh     | 1 +
 include/Matcher.hh          | 1 +
 include/SearchParameters.hh | 1 +
 python/columbus.cc          | 6 +++---
 5 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ErrorValues.hh b/include/ErrorValues.hh
index 054ae35..d7ded71 100644
--- a/include/ErrorValues.hh
+++ b/include/ErrorValues.hh
@@ -61,6 +61,7 @@ public:
 
     ErrorValues();
     ~ErrorValues();
+    ErrorValues(const ErrorValues &other) = delete;
     const ErrorValues& operator=(const ErrorValues &other) = delete;
 
     int getInsertionError() const { return insertionError; }
diff --git a/include/IndexWeights.hh b/include/IndexWeights.hh
index da628f2..475ea06 100644
--- a/include/IndexWeights.hh
+++ b/include/IndexWeights.hh
@@ -32,6 +32,7 @@ class COL_PUBLIC IndexWeights final {
 public:
     IndexWeights();
     ~IndexWeights();
+    IndexWeights(const IndexWeights &other) = delete;
     const IndexWeights & operator=(const IndexWeights &other) = delete;
 
     void setWeight(const Word &w, double weigth);
diff --git a/include/Matcher.hh b/include/Matcher.hh
index 7d3f698..3ae1a84 100644
--- a/include/Matcher.hh
+++ b/include/Matcher.hh
@@ -47,6 +47,7 @@ private:
 public:
     Matcher();
     ~Matcher();
+    Matcher(const Matcher &m) = delete;
     Matcher& operator=(const Matcher &m) = delete;
 
     // The simple API
diff --git a/include/SearchParameters.hh b/include/SearchParameters.hh
index 73c3f7d..2046b9b 100644
--- a/include/SearchParameters.hh
+++ b/include/SearchParameters.hh
@@ -35,6 +35,7 @@ private:
 public:
     SearchParameters();
     ~SearchParameters();
+    SearchParameters(const SearchParameters &other) = delete;
     SearchParameters & operator=(const SearchParameters &other) = delete;
 
     bool isDynamic() const;
diff --git a/python/columbus.cc b/python/columbus.cc
index 63babf5..b621a7a 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -65,7 +65,7 @@ BOOST_PYTHON_MODULE(columbus) {
             .def("__len__", &MatchResults::size)
             ;
 
-    class_<Matcher>("Matcher")
+    class_<Matcher, boost::noncopyable>("Matcher")
             .def("index", &Matcher::index)
             .def("match", queryAdaptor)
             .def("get_errorvalues", &Matcher::getErrorValues,
@@ -74,7 +74,7 @@ BOOST_PYTHON_MODULE(columbus) {
                     return_internal_reference<>())
             ;
 
-    class_<ErrorValues>("ErrorValues", init<>())
+    class_<ErrorValues, boost::noncopyable>("ErrorValues", init<>())
             .def("add_standard_errors", &ErrorValues::addStandardErrors)
             .def("set_substring_mode", &ErrorValues::setSubstringMode)
             .def("set_end_deletion_error", &ErrorValues::setEndDeletionError)
@@ -87,7 +87,7 @@ BOOST_PYTHON_MODULE(columbus) {
             .def("clear_errors", &ErrorValues::clearErrors)
             ;
 
-    class_<IndexWeights>("IndexWeights")
+    class_<IndexWeights, boost::noncopyable>("IndexWeights")
             .def("set_weight", &IndexWeights::setWeight)
             .def("get_weight", &IndexWeights::getWeight)
             ;
-- 
2.43.0


From 0955b34cd8e6c02c62ae68aa35d3121c499c990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 20/42] fix: accept letters as integers in the Python error
 value functions

Letter is a class now and has no Python converter, so set_error and
get_substitute_error could not be called at all.
---
 python/columbus.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/columbus.cc b/python/columbus.cc
index b621a7a..90aef35 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -25,6 +25,13 @@ using namespace Columbus;
 
 
 void (Document::*addAdaptor) (const Word &, const std::string &) = &Document::addText;
+// Letters are integers in Python.
+static void setErrorAdaptor(ErrorValues &e, const Letter_ l1, const Letter_ l2, const int error) {
+    e.setError(l1, l2, error);
+}
+static int substituteErrorAdaptor(const ErrorValues &e, const Letter_ l1, const Letter_ l2) {
+    return e.getSubstituteError(l1, l2);
+}
 MatchResults (Matcher::*queryAdaptor) (const std::string &) = &Matcher::match;
 
 BOOST_PYTHON_MODULE(columbus) {
@@ -78,8 +85,8 @@ BOOST_PYTHON_MODULE(columbus) {
             .def("add_standard_errors", &ErrorValues::addStandardErrors)
             .def("set_substring_mode", &ErrorValues::setSubstringMode)
             .def("set_end_deletion_error", &ErrorValues::setEndDeletionError)
-            .def("set_error", &ErrorValues::setError)
-            .def("get_substitute_error", &ErrorValues::getSubstituteError)
+            .def("set_error", setErrorAdaptor)
+            .def("get_substitute_error", substituteErrorAdaptor)
             .def("get_default_error", &ErrorValues::getDefaultError)
             .staticmethod("get_default_error")
             .def("get_substring_default_end_deletion_error", &ErrorValues::getSubstringDefaultEndDeletionError)
-- 
2.43.0


From 49c80a91e3aec4887255787a12a10b0e6132b31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 21/42] fix: do not hand out pointers into a growing WordList
 in Python

Indexing a WordList returned a reference to one of its elements, which
dangles as soon as a word is added to the list. Return a copy.
---
 python/columbus.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/columbus.cc b/python/columbus.cc
index 90aef35..302e988 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -50,7 +50,7 @@ BOOST_PYTHON_MODULE(columbus) {
             .def(init<const WordList &>())
             .def("__len__", &WordList::size)
             .def("__getitem__", &WordList::operator[],
-                    return_internal_reference<>())
+                    return_value_policy<copy_const_reference>())
             .def("add_word", &WordList::addWord)
             ;
 
-- 
2.43.0


From b0f3147109929f09653eba981d217c2371e1cb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 22/42] fix: handle an empty COLUMBUS_DATADIR

The last character of an empty string was accessed. An empty directory name
is the same as none being set.
---
 src/ColumbusSlow.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ColumbusSlow.cc b/src/ColumbusSlow.cc
index b641a4d..356933d 100644
--- a/src/ColumbusSlow.cc
+++ b/src/ColumbusSlow.cc
@@ -36,7 +36,7 @@ string findDataFile(const string &baseName) {
     const char *envvarDir;
 
     envvarDir = getenv(varname);
-    if(envvarDir) {
+    if(envvarDir && envvarDir[0] != '\0') {
         s = envvarDir;
         if(s[s.length()-1] != '/')
             s += "/";
-- 
2.43.0


From 1120c24ebc72933aa6e6e2305e7d9ce6a6245416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:44 +0000
Subject: [PATCH 23/42] fix: add the plain letter to the accent group of y

Every other group lists the unaccented letter first.
---
 share/latinAccentedLetterGroups.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/latinAccentedLetterGroups.txt b/share/latinAccentedLetterGroups.txt
index cb3d2f0..b0287a2 100644
--- a/share/latinAccentedLetterGroups.txt
+++ b/share/latinAccentedLetterGroups.txt
@@ -20,5 +20,5 @@ uúùŭûǔůüǘǜǚǖűũṹųūṻủȕȗưứừữửựụṳṷṵ
 vṽṿ
 wẃẁŵẅẇẉẘ
 xẍẋ
-ýỳŷẙÿỹẏȳỷỵɏƴ
+yýỳŷẙÿỹẏȳỷỵɏƴ
 zźẑžżẓẕƶ
-- 
2.43.0


From 08836315d9baa4bbbe6cc316b937eeae750d19e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:27 +0000
Subject: [PATCH 24/42] fix: do not let Python modify a document through its
 text

The text of a document is constant in C++, but the internal reference given
to Python could be modified and changed when the field was set again.
---
 python/columbus.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/columbus.cc b/python/columbus.cc
index 302e988..32bdfa5 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -61,7 +61,7 @@ BOOST_PYTHON_MODULE(columbus) {
             .def("field_count", &Document::fieldCount)
             .def("get_id", &Document::getID)
             .def("get_text", &Document::getText,
-                    return_internal_reference<>())
+                    return_value_policy<copy_const_reference>())
             .def("add_text", addAdaptor)
             ;
 
-- 
2.43.0


From 2900803d6e3e0a1124b5dc36cc028fc1ef899ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:28 +0000
Subject: [PATCH 25/42] fix: keep searching within bounds after an insertion
 that failed

---
 src/LevenshteinIndex.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index 7ee29e4..d0512e0 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -88,10 +88,11 @@ void LevenshteinIndex::insertWord(const Word &word, const WordID wordID) {
     } else {
         newCount = 1;
     }
-    p->trie.insertWord(word, wordID);
-    p->wordCounts[wordID] = newCount;
+    // An insertion that fails half way leaves a part of the word in the trie.
     if(word.length() > p->longestWordLength)
         p->longestWordLength = word.length();
+    p->trie.insertWord(word, wordID);
+    p->wordCounts[wordID] = newCount;
     if(p->maxCount < newCount)
         p->maxCount = newCount;
     return;
-- 
2.43.0


From e627e81ac7e80de1cba949aef7e4dbe33415d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:26 +0000
Subject: [PATCH 26/42] fix: refuse None in the Python split_to_words instead
 of crashing

---
 python/columbus.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/columbus.cc b/python/columbus.cc
index 32bdfa5..5bf59b6 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -32,6 +32,10 @@ static void setErrorAdaptor(ErrorValues &e, const Letter_ l1, const Letter_ l2,
 static int substituteErrorAdaptor(const ErrorValues &e, const Letter_ l1, const Letter_ l2) {
     return e.getSubstituteError(l1, l2);
 }
+// A null pointer would come through if this took a char*.
+static WordList splitAdaptor(const std::string &text) {
+    return splitToWords(text.c_str());
+}
 MatchResults (Matcher::*queryAdaptor) (const std::string &) = &Matcher::match;
 
 BOOST_PYTHON_MODULE(columbus) {
@@ -54,7 +58,7 @@ BOOST_PYTHON_MODULE(columbus) {
             .def("add_word", &WordList::addWord)
             ;
 
-    def("split_to_words", splitToWords);
+    def("split_to_words", splitAdaptor);
 
     class_<Document>("Document", init<DocumentID>())
             .def(init<const Document&>())
-- 
2.43.0


From fa21478b99a1870ecfa2b8a423b50c53ee352ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:15 +0000
Subject: [PATCH 27/42] fix: free the conversion buffer when a Word cannot be
 encoded

---
 src/Word.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Word.cc b/src/Word.cc
index 39f3c68..decfda5 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -21,6 +21,7 @@
 #include <cstring>
 #include <stdexcept>
 #include <cassert>
+#include <vector>
 #include <cstring>
 #include "ColumbusHelpers.hh"
 
@@ -232,11 +233,9 @@ void Word::toUtf8(char *buf, unsigned int bufSize) const {
 
 string Word::asUtf8() const {
     size_t strSize = 4*(len+1); // One codepoint is max 4 bytes in UTF-8.
-    char *u8 = new char[strSize];
-    toUtf8(u8, strSize);
-    string result(u8);
-    delete []u8;
-    return result;
+    std::vector<char> u8(strSize);
+    toUtf8(u8.data(), strSize);
+    return string(u8.data());
 }
 
 Word Word::join(const Word &w) const {
-- 
2.43.0


From 4dfaa60938285e5b3fd516ac10bdd37819c0ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:24:29 +0000
Subject: [PATCH 28/42] fix: do not exhaust the stack when searching very long
 words

---
 include/LevenshteinIndex.hh |  2 +-
 src/LevenshteinIndex.cc     | 34 ++++++++++++++++------------------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/include/LevenshteinIndex.hh b/include/LevenshteinIndex.hh
index 6c01325..4ebd31c 100644
--- a/include/LevenshteinIndex.hh
+++ b/include/LevenshteinIndex.hh
@@ -35,7 +35,7 @@ class COL_PUBLIC LevenshteinIndex final {
 private:
     LevenshteinIndexPrivate *p;
 
-    void searchRecursive(const Word &query, TrieOffset node, const ErrorValues &e,
+    bool searchNode(const Word &query, TrieOffset node, const ErrorValues &e,
             const Letter letter, const Letter previousLetter, const size_t depth, ErrorMatrix &em,
             IndexMatches &matches, const int max_error) const;
 
diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index d0512e0..a4a4bc8 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -103,21 +103,27 @@ bool LevenshteinIndex::hasWord(const Word &word) const {
 }
 
 void LevenshteinIndex::findWords(const Word &query, const ErrorValues &e, const int maxError, IndexMatches &matches) const {
-    TrieOffset root;
-    TrieOffset sibling;
     ErrorMatrix em(p->longestWordLength+1, query.length()+1,
             e.getInsertionError(), e.getStartInsertionError(query.length()));
 
     assert(em.get(0, 0) == 0);
     if(query.length() > 0)
         assert(em.get(0, 1) == e.getInsertionError());
-    root = p->trie.getRoot();
-    sibling = p->trie.getSiblingList(root);
-    while(sibling != 0) {
+    // The path being examined: what is left of each level and the letter leading to it.
+    // Not recursive because long words would exhaust the stack.
+    vector<pair<TrieOffset, Letter> > path;
+    path.push_back(make_pair(p->trie.getSiblingList(p->trie.getRoot()), (Letter)0));
+    while(!path.empty()) {
+        TrieOffset sibling = path.back().first;
+        if(sibling == 0) {
+            path.pop_back();
+            continue;
+        }
+        path.back().first = p->trie.getNextSibling(sibling);
         Letter l = p->trie.getLetter(sibling);
         TrieOffset nextNode = p->trie.getChild(sibling);
-        searchRecursive(query, nextNode, e, l, (Letter)0, 1, em, matches, maxError);
-        sibling = p->trie.getNextSibling(sibling);
+        if(searchNode(query, nextNode, e, l, path.back().second, path.size(), em, matches, maxError))
+            path.push_back(make_pair(p->trie.getSiblingList(nextNode), l));
     }
     matches.sort();
 }
@@ -142,7 +148,7 @@ int LevenshteinIndex::findOptimalError(const Letter letter, const Letter previou
     return min(insertError, min(deleteError, min(substituteError, transposeError)));
 }
 
-void LevenshteinIndex::searchRecursive(const Word &query, TrieOffset node, const ErrorValues &e,
+bool LevenshteinIndex::searchNode(const Word &query, TrieOffset node, const ErrorValues &e,
         const Letter letter, const Letter previousLetter, const size_t depth, ErrorMatrix &em,
         IndexMatches &matches, const int maxError) const {
 
@@ -151,20 +157,12 @@ void LevenshteinIndex::searchRecursive(const Word &query, TrieOffset node, const
         em.set(depth, i, minError);
     }
 
-    // Error row evaluated. Now check if a word was found and continue recursively.
+    // Error row evaluated. Now check if a word was found and whether to continue deeper.
     if(em.totalError(depth) <= maxError && p->trie.getWordID(node) != INVALID_WORDID) {
         matches.addMatch(query, p->trie.getWordID(node), em.totalError(depth));
     }
     // A transposition skips one row, so the previous row also matters.
-    if(em.minError(depth) <= maxError || em.minError(depth-1) + e.getTransposeError() <= maxError) {
-        TrieOffset sibling = p->trie.getSiblingList(node);
-        while(sibling != 0) {
-            Letter l = p->trie.getLetter(sibling);
-            TrieOffset nextNode = p->trie.getChild(sibling);
-            searchRecursive(query, nextNode, e, l, letter, depth+1, em, matches, maxError);
-            sibling = p->trie.getNextSibling(sibling);
-        }
-    }
+    return em.minError(depth) <= maxError || em.minError(depth-1) + e.getTransposeError() <= maxError;
 }
 
 size_t LevenshteinIndex::wordCount(const WordID queryID) const {
-- 
2.43.0


From 4bf5cf7155fe0a6e5077764f72690a7f3ea9cd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:26 +0000
Subject: [PATCH 29/42] fix: refuse null letters inside a Word

---
 src/Word.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Word.cc b/src/Word.cc
index decfda5..e701adc 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -70,6 +70,13 @@ Word::Word(Letter *letters, size_t length) {
         len = length;
     }
     memcpy(text, letters, length*sizeof(Letter));
+    for(size_t i=0; i<len; i++) {
+        if(text[i] == 0) {
+            delete []text;
+            text = nullptr;
+            throw std::invalid_argument("Tried to create a Word with a null letter.");
+        }
+    }
     if(hasWhitespace()) {
         delete []text;
         text = nullptr;
-- 
2.43.0


From 3f20caa8f744bcb4dcf39cea49d26c743cbd641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:42:28 +0000
Subject: [PATCH 30/42] fix: refuse to grow a full trie instead of truncating
 its storage away

---
 src/Trie.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index 933cc72..2e75eef 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -105,8 +105,12 @@ void Trie::expand() {
     TrieOffset oldSize = 0;
     TrieOffset newSize;
     if(p->map) {
+        // The offsets can not reach further than this.
+        const TrieOffset maxSize = ~(TrieOffset)0 - 4095;
         oldSize = p->h->totalSize;
-        newSize = oldSize*2;
+        if(oldSize >= maxSize)
+            throw runtime_error("Trie is full.");
+        newSize = oldSize > maxSize/2 ? maxSize : oldSize*2;
     } else {
         newSize = 1024;
     }
-- 
2.43.0


From 9c6be37182ea0dbfc2f13729dc0c4e0123d2f71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:57:32 +0000
Subject: [PATCH 31/42] fix: report a read error in an accent data file

---
 src/ErrorValues.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 0d8165a..997bc34 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -184,6 +184,11 @@ void ErrorValues::addAccents(accentGroups group) {
             continue;
         setGroupError(group, getDefaultGroupError());
     }
+    if(ifile.bad()) {
+        string s = "Could not read data file ";
+        s += dataFile;
+        throw runtime_error(s);
+    }
 }
 
 void ErrorValues::addKeyboardErrors() {
-- 
2.43.0


From 460bda8b24b716daa2aa7f7f6c1476a26d1de32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:11:21 +0000
Subject: [PATCH 32/42] fix: do not leak a new ResultFilter when memory runs
 out

---
 src/ResultFilter.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ResultFilter.cc b/src/ResultFilter.cc
index 209d44b..e5acac0 100644
--- a/src/ResultFilter.cc
+++ b/src/ResultFilter.cc
@@ -32,7 +32,12 @@ struct ResultFilterPrivate {
 
 ResultFilter::ResultFilter() {
     p = new ResultFilterPrivate();
-    addNewTerm();
+    try {
+        addNewTerm();
+    } catch(...) {
+        delete p;
+        throw;
+    }
 }
 
 ResultFilter::~ResultFilter() {
-- 
2.43.0


From 8e2f55ce00791d845768aa8ef171c35805d6d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:11:25 +0000
Subject: [PATCH 33/42] fix: keep a Word usable when memory runs out during an
 assignment

---
 src/Word.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Word.cc b/src/Word.cc
index e701adc..0a8da22 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -121,14 +121,14 @@ void Word::duplicateFrom(const Word &w) {
     if(this == &w) {
         return;
     }
+    Letter *newText = 0; // Get the memory before letting go of the old letters.
+    if(w.len != 0) {
+        newText = new Letter[w.len+1];
+        memcpy(newText, w.text, (w.len+1)*sizeof(Letter));
+    }
     delete []text;
+    text = newText;
     len = w.len;
-    if(len == 0) {
-        text = 0;
-    } else {
-        text = new Letter[len+1];
-        memcpy(text, w.text, (len+1)*sizeof(Letter));
-    }
 }
 
 Letter Word::operator[](unsigned int i) const {
-- 
2.43.0


From df46a1ad74153c07ecd34dd3e1b7be5e06cb4e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:11:28 +0000
Subject: [PATCH 34/42] fix: do not leak when memory runs out while copying
 lists, documents or results

---
 src/Document.cc     | 4 +---
 src/MatchResults.cc | 3 +--
 src/WordList.cc     | 3 +--
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/Document.cc b/src/Document.cc
index c444f3f..630fabe 100644
--- a/src/Document.cc
+++ b/src/Document.cc
@@ -41,9 +41,7 @@ Document::Document(DocumentID id) {
 }
 
 Document::Document(const Document& d) {
-    p = new DocumentPrivate();
-    p->id = d.p->id;
-    p->texts = d.p->texts;
+    p = new DocumentPrivate(*d.p);
 }
 
 Document::~Document() {
diff --git a/src/MatchResults.cc b/src/MatchResults.cc
index 25a9481..730e967 100644
--- a/src/MatchResults.cc
+++ b/src/MatchResults.cc
@@ -37,8 +37,7 @@ MatchResults::MatchResults() {
 }
 
 MatchResults::MatchResults(const MatchResults &other) {
-    p = new MatchResultsPrivate();
-    *p = *other.p;
+    p = new MatchResultsPrivate(*other.p);
 }
 
 MatchResults::MatchResults(MatchResults &&other) {
diff --git a/src/WordList.cc b/src/WordList.cc
index 6f7ee3c..b09db1b 100644
--- a/src/WordList.cc
+++ b/src/WordList.cc
@@ -35,8 +35,7 @@ WordList::WordList() {
 }
 
 WordList::WordList(const WordList &wl) {
-    p = new WordListPrivate();
-    p->words = wl.p->words;
+    p = new WordListPrivate(*wl.p);
 }
 
 WordList::WordList(WordList &&wl) {
-- 
2.43.0


From 18267b37072b6469c7e614d6d973f882ea51b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:11:31 +0000
Subject: [PATCH 35/42] fix: do not leak a half built ErrorMatrix when memory
 runs out

---
 src/ErrorMatrix.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ErrorMatrix.cc b/src/ErrorMatrix.cc
index b7a51bd..fdae617 100644
--- a/src/ErrorMatrix.cc
+++ b/src/ErrorMatrix.cc
@@ -29,7 +29,14 @@ ErrorMatrix::ErrorMatrix(const size_t rows_, const size_t columns_, const int in
     columns(columns_) {
     m = new int*[rows+1];
     for(size_t i=0; i<=rows; i++) {
-        m[i] = new int[columns+1];
+        try {
+            m[i] = new int[columns+1];
+        } catch(...) {
+            while(i > 0)
+                delete []m[--i];
+            delete []m;
+            throw;
+        }
     }
     for(size_t i=0; i<=columns; i++) {
         m[0][i] = i*insertError;
-- 
2.43.0


From 70f7f569058465a83518429695a9338e1408f46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:11:57 +0000
Subject: [PATCH 36/42] fix: do not leak or abort when memory runs out while
 converting text

---
 src/ColumbusHelpers.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 578c853..f38b6cd 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -30,6 +30,7 @@
 #include <cassert>
 #include <stdexcept>
 #include <cstring>
+#include <new>
 #include <sys/time.h>
 #include <unicode/uchar.h>
 #include <cstdlib>
@@ -57,9 +58,18 @@ Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
     }
 
     unsigned int inputLen = strlen((const char*)(utf8Text));
-    txt = (char*)new Letter[inputLen+1];
+    try {
+        txt = (char*)new Letter[inputLen+1];
+    } catch(...) {
+        iconv_close(ic);
+        throw;
+    }
     tmp = strdup((const char*)(utf8Text)); // Iconv should take a const pointer but does not. Protect against it screwing up.
-    assert(tmp);
+    if(!tmp) {
+        delete []txt;
+        iconv_close(ic);
+        throw std::bad_alloc();
+    }
     inBytes = inputLen;
     outBytes = sizeof(Letter)*(inBytes+1);
     outBytesOriginal = outBytes;
@@ -81,10 +91,12 @@ Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
     if(bytesWritten < inputLen) {
         // Shrink allocated memory size to exactly the produced string.
         size_t newArraySize = bytesWritten + sizeof(Letter);
-        char *newtxt = new char[newArraySize];
-        memcpy(newtxt, txt, newArraySize);
-        delete []txt;
-        txt = newtxt;
+        char *newtxt = new(std::nothrow) char[newArraySize];
+        if(newtxt) { // Otherwise keep the longer one.
+            memcpy(newtxt, txt, newArraySize);
+            delete []txt;
+            txt = newtxt;
+        }
     }
     Letter* text = reinterpret_cast<Letter*>(txt);
     text[resultStringSize] = 0; // Null terminated.
-- 
2.43.0


From fc7b782d36be45fc6748ec86ce73121d1e409114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:12:00 +0000
Subject: [PATCH 37/42] fix: keep the WordStore consistent when memory runs out

---
 src/WordStore.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/WordStore.cc b/src/WordStore.cc
index 7e79d0f..e1e5089 100644
--- a/src/WordStore.cc
+++ b/src/WordStore.cc
@@ -56,9 +56,14 @@ WordID WordStore::getID(const Word &w) {
     if(p->words.hasWord(w)) {
         return p->words.getWordID(p->words.findWord(w));
     }
-    TrieOffset node = p->words.insertWord(w, p->wordIndex.size());
-    p->wordIndex.push_back(node);
-    WordID result = p->wordIndex.size()-1;
+    WordID result = p->wordIndex.size();
+    p->wordIndex.push_back(0); // Get the memory before the word is stored.
+    try {
+        p->wordIndex[result] = p->words.insertWord(w, result);
+    } catch(...) {
+        p->wordIndex.pop_back();
+        throw;
+    }
     return result;
 }
 
-- 
2.43.0


From 9d061bce0f2ef66bf3b793b923a35b522b12dd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:12:03 +0000
Subject: [PATCH 38/42] fix: leave the error groups alone when memory runs out
 while adding one

---
 src/ErrorValues.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 997bc34..eeb6c59 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -138,8 +138,16 @@ void ErrorValues::setGroupError(const Word &groupLetters, const int error) {
     }
     size_t newGroupID = p->groupErrors.size();
     p->groupErrors.push_back(error);
-    for(size_t i = 0; i < groupLetters.length(); i++) {
-        p->groupMap[groupLetters[i]] = newGroupID;
+    try {
+        for(size_t i = 0; i < groupLetters.length(); i++) {
+            p->groupMap[groupLetters[i]] = newGroupID;
+        }
+    } catch(...) {
+        for(size_t i = 0; i < groupLetters.length(); i++) {
+            p->groupMap.erase(groupLetters[i]);
+        }
+        p->groupErrors.pop_back();
+        throw;
     }
     addGroupErrorToLUT(groupLetters);
 
-- 
2.43.0


From 2284cc4e44515dcc1cbbf62f78ef443faa9954a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:17:57 +0000
Subject: [PATCH 39/42] fix: do not leak a new index when memory runs out while
 adding it

---
 src/Matcher.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Matcher.cc b/src/Matcher.cc
index 41a666d..e326105 100644
--- a/src/Matcher.cc
+++ b/src/Matcher.cc
@@ -302,7 +302,12 @@ void Matcher::addToIndex(const Word &word, const WordID wordID, const WordID ind
     IndIterator it = p->indexes.find(indexID);
     if(it == p->indexes.end()) {
         target = new LevenshteinIndex();
-        p->indexes[indexID] = target;
+        try {
+            p->indexes[indexID] = target;
+        } catch(...) {
+            delete target;
+            throw;
+        }
     } else {
         target = it->second;
     }
-- 
2.43.0


From 8a9d539c074f77b80cb2a30a3a7f6c667a21e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:21:10 +0000
Subject: [PATCH 40/42] fix: read data files with long lines or no last newline
 in queryindex and singleword

---
 tools/queryindex.cc | 22 +++++++---------------
 tools/singleword.cc | 23 +++++++++--------------
 2 files changed, 16 insertions(+), 29 deletions(-)

diff --git a/tools/queryindex.cc b/tools/queryindex.cc
index 1b8022a..8a254d7 100644
--- a/tools/queryindex.cc
+++ b/tools/queryindex.cc
@@ -25,27 +25,22 @@
 #include <cstdio>
 #include <stdexcept>
 #include <cstdlib>
+#include <fstream>
 #include <string>
-#include <cstring>
-#include <cassert>
 
 using namespace Columbus;
 
 void load_data(LevenshteinIndex &ind, WordStore &s, char *file) {
-    FILE *f = fopen(file, "r");
-    char buffer[1024];
-    if(!f) {
+    std::ifstream f(file);
+    std::string line;
+    if(f.fail()) {
         printf("Could not open file %s.\n", file);
         exit(1);
     }
-    while(fgets(buffer, 1024, f) != NULL) {
-        unsigned int slen = strlen(buffer);
-        assert(buffer[slen-1] == '\n');
-        buffer[slen-1] = '\0'; // Chop the \n.
-        Word w(buffer);
+    while(getline(f, line)) {
+        Word w(line.c_str());
         ind.insertWord(w, s.getID(w));
     }
-    fclose(f);
 }
 
 void queryAndPrint(LevenshteinIndex &ind, WordStore &s, Word &query, int maxError) {
@@ -57,10 +52,7 @@ void queryAndPrint(LevenshteinIndex &ind, WordStore &s, Word &query, int maxErro
         return;
     }
     for(size_t i=0; i<matches.size(); i++) {
-        const unsigned int bufSize = 1024;
-        char buf[bufSize];
-        s.getWord(matches.getMatch(i)).toUtf8(buf, bufSize);
-        printf("%s %d\n", buf, matches.getMatchError(i));
+        printf("%s %d\n", s.getWord(matches.getMatch(i)).asUtf8().c_str(), matches.getMatchError(i));
     }
 }
 
diff --git a/tools/singleword.cc b/tools/singleword.cc
index 391460c..65c52d6 100644
--- a/tools/singleword.cc
+++ b/tools/singleword.cc
@@ -28,9 +28,9 @@
 #include "WordStore.hh"
 #include <gtk/gtk.h>
 #include <vector>
-#include <cassert>
-#include <cstring>
 #include <cstdlib>
+#include <fstream>
+#include <string>
 
 using namespace Columbus;
 using namespace std;
@@ -84,11 +84,10 @@ static void doSearch(GtkWidget */*widget*/, gpointer data) {
     }
     gtk_list_store_clear(app->matchStore);
     for(size_t i=0; i<matches.size(); i++) {
-        char buf[1024];
-        app->store.getWord(matches.getMatch(i)).toUtf8(buf, 1024);
+        string word = app->store.getWord(matches.getMatch(i)).asUtf8();
         gtk_list_store_append(app->matchStore, &iter);
         gtk_list_store_set(app->matchStore, &iter,
-                0, buf,
+                0, word.c_str(),
                 1, (int)matches.getMatchError(i),
                 -1);
     }
@@ -157,20 +156,16 @@ void build_gui(app_data &app) {
  * Replace with library data read function once it is finished.
  */
 static void readData(vector<Word> &a, const char *ifilename) {
-    FILE *f = fopen(ifilename, "r");
-    char buffer[1024];
-    if(!f) {
+    ifstream f(ifilename);
+    string line;
+    if(f.fail()) {
         printf("Could not open dictionary file. Skipping performance test.\n");
         exit(0);
     }
-    while(fgets(buffer, 1024, f) != NULL) {
-        unsigned int slen = strlen(buffer);
-        assert(buffer[slen-1] == '\n');
-        buffer[slen-1] = '\0'; // Chop the \n.
-        Word s(buffer);
+    while(getline(f, line)) {
+        Word s(line.c_str());
         a.push_back(s);
     }
-    fclose(f);
 }
 
 int main(int argc, char **argv) {
-- 
2.43.0


From 0e4c3a15252b56ffa2f84b9eb21a6826692fac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:21:10 +0000
Subject: [PATCH 41/42] fix: remove DOS line endings in the tools without
 reading outside the line

---
 tools/hudtest.cc   | 6 +++---
 tools/numberpad.cc | 6 +++---
 tools/queryapp.cc  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/tools/hudtest.cc b/tools/hudtest.cc
index 3c60011..8d376de 100644
--- a/tools/hudtest.cc
+++ b/tools/hudtest.cc
@@ -175,11 +175,11 @@ void build_matcher(app_data &app, const char *dataFile) {
     while(getline(ifile, line)) {
         WordList path, command;
         string pathText, commandText;
+        // Remove possible DOS line ending garbage.
+        if(line.size() > 0 && line[line.size()-1] == '\r')
+            line.erase(line.size()-1);
         if(line.size() == 0)
             continue;
-        // Remove possible DOS line ending garbage.
-        if(line[line.size()-2] == '\r')
-            line[line.size()-2] = '\0';
         splitShowableParts(line, pathText, commandText);
         path = splitToWords(pathText.c_str());
         command = splitToWords(commandText.c_str());
diff --git a/tools/numberpad.cc b/tools/numberpad.cc
index 90c4ea8..a205a97 100644
--- a/tools/numberpad.cc
+++ b/tools/numberpad.cc
@@ -261,11 +261,11 @@ void build_matcher(app_data &app, const char *dataFile) {
     // Build Corpus.
     dataReadStart = hiresTimestamp();
     while(getline(ifile, line)) {
+        // Remove possible DOS line ending garbage.
+        if(line.size() > 0 && line[line.size()-1] == '\r')
+            line.erase(line.size()-1);
         if(line.size() == 0)
             continue;
-        // Remove possible DOS line ending garbage.
-        if(line[line.size()-2] == '\r')
-            line[line.size()-2] = '\0';
         Document d(app.source.size());
         d.addText(field, line.c_str());
         c->addDocument(d);
diff --git a/tools/queryapp.cc b/tools/queryapp.cc
index 69d0606..580a8ed 100644
--- a/tools/queryapp.cc
+++ b/tools/queryapp.cc
@@ -159,11 +159,11 @@ void build_matcher(app_data &app, const char *dataFile) {
     // Build Corpus.
     dataReadStart = hiresTimestamp();
     while(getline(ifile, line)) {
+        // Remove possible DOS line ending garbage.
+        if(line.size() > 0 && line[line.size()-1] == '\r')
+            line.erase(line.size()-1);
         if(line.size() == 0)
             continue;
-        // Remove possible DOS line ending garbage.
-        if(line[line.size()-2] == '\r')
-            line[line.size()-2] = '\0';
         Document d(app.source.size());
         d.addText(field, line.c_str());
         c->addDocument(d);
-- 
2.43.0


From 230e88c3247d58488c3d57eb1838e4efeb2be17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:21:10 +0000
Subject: [PATCH 42/42] fix: quote the query and file name given to grep by
 numberpad

---
 tools/numberpad.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/tools/numberpad.cc b/tools/numberpad.cc
index a205a97..51e7ee0 100644
--- a/tools/numberpad.cc
+++ b/tools/numberpad.cc
@@ -55,9 +55,20 @@ static void destroy(GtkWidget */*widget*/, gpointer /*data*/) {
     gtk_main_quit ();
 }
 
+static string shellQuote(const string &s) {
+    string quoted("'");
+    for(size_t i=0; i<s.size(); i++) {
+        if(s[i] == '\'')
+            quoted += "'\\''";
+        else
+            quoted += s[i];
+    }
+    return quoted + "'";
+}
+
 static void doExactMatch(const char *query, const char *fname) {
     string regex("^");
-    string command("grep ");
+    string command("grep -- ");
     for(int i=0; query[i] != 0; i++) {
         switch(query[i]) {
         case '0' : regex += "0"; break;
@@ -73,10 +84,9 @@ static void doExactMatch(const char *query, const char *fname) {
         default : regex += query[i]; break;
         }
     }
-    command += "'";
-    command += regex;
-    command += "' ";
-    command += fname;
+    command += shellQuote(regex);
+    command += " ";
+    command += shellQuote(fname);
     printf("\n-------\n");
     system(command.c_str());
     printf("\n\n");
-- 
2.43.0

