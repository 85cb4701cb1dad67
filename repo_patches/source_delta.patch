From f7ba7920f4c729f393f1604c18ce432feab5a839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:23 +0000
Subject: [PATCH 01/33] fix: reject enum container indexes and iterator offsets
 that don't fit in 'Size'

Indexes and offsets were cast to 'uint8_t' before the range check, so values
like '256' wrapped around and were accepted as valid positions.
---
 libs/utils/include/kt_utils/EnumContainer.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/utils/include/kt_utils/EnumContainer.h b/libs/utils/include/kt_utils/EnumContainer.h
index 9847a8e..b18321e 100644
--- a/libs/utils/include/kt_utils/EnumContainer.h
+++ b/libs/utils/include/kt_utils/EnumContainer.h
@@ -144,7 +144,8 @@ template <scoped_enum T, Enum::Size N> template <typename I>
 requires std::integral<I> || std::same_as<T, I>
 auto EnumContainer<T, N>::checkIndex(I i, const String& name) {
   const auto x{static_cast<Size>(i)};
-  if (x >= N) {
+  // the second part rejects values that don't fit in 'Size' (like '256')
+  if (x >= N || static_cast<std::ptrdiff_t>(i) != x) {
     String msg{name};
     if constexpr (std::is_same_v<I, T>)
       msg += "enum value " + std::to_string(x);
@@ -197,12 +198,13 @@ auto EnumContainer<T, N>::Iterator<Derived>::operator[](
 template <scoped_enum T, Enum::Size N>
 template <typename Derived>
 auto& EnumContainer<T, N>::Iterator<Derived>::operator+=(difference_type i) {
-  if (difference_type curIndex{index()}; (curIndex += i) < 0)
+  const difference_type curIndex{index()};
+  if (i < -curIndex)
     rangeError(BadBegin);
-  else if (const auto j{static_cast<Size>(curIndex)}; j > N)
+  else if (i > N - curIndex)
     rangeError(BadEnd);
   else
-    index() = j;
+    index() = static_cast<Size>(curIndex + i);
   return derived();
 }
 
-- 
2.43.0


From 58dadd1f49a5dfb248d9ec76890dce0b0115da72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:14 +0000
Subject: [PATCH 02/33] fix: reject column values that aren't entirely an
 unsigned number

'stoul' accepts a sign (so '-1' became 18446744073709551615), leading spaces
and trailing characters ('12abc' became 12).
---
 libs/utils/src/ColumnFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/utils/src/ColumnFile.cpp b/libs/utils/src/ColumnFile.cpp
index 141df70..194fc76 100644
--- a/libs/utils/src/ColumnFile.cpp
+++ b/libs/utils/src/ColumnFile.cpp
@@ -119,6 +119,9 @@ ColumnFile::OptU64 ColumnFile::getOptU64(const Column& c, uint64_t max) const {
 uint64_t ColumnFile::processU64(
     const String& s, const Column& column, uint64_t max) const {
   uint64_t i{};
+  // 'stoul' accepts leading spaces, a sign and trailing junk so check digits
+  if (s.find_first_not_of("0123456789") != String::npos)
+    error("failed to convert to unsigned number", column, s);
   try {
     i = std::stoul(s);
   } catch (...) {
-- 
2.43.0


From e86572956612906e290a31ee56ccdaca04273e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:12 +0000
Subject: [PATCH 03/33] fix: open column files for reading only

Opening with 'fstream' also asks for write access, so a readable file without
write permission was reported as 'missing header row'.
---
 libs/utils/include/kt_utils/ColumnFile.h | 2 +-
 libs/utils/src/ColumnFile.cpp            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/utils/include/kt_utils/ColumnFile.h b/libs/utils/include/kt_utils/ColumnFile.h
index 1219b8d..03ecf20 100644
--- a/libs/utils/include/kt_utils/ColumnFile.h
+++ b/libs/utils/include/kt_utils/ColumnFile.h
@@ -137,7 +137,7 @@ private:
 
   [[nodiscard]] String errorMsg(const String&) const;
 
-  std::fstream _file;
+  std::ifstream _file;
   const char _delimiter;
 
   /// holds the 'last component name' of the file being processed
diff --git a/libs/utils/src/ColumnFile.cpp b/libs/utils/src/ColumnFile.cpp
index 194fc76..81bee08 100644
--- a/libs/utils/src/ColumnFile.cpp
+++ b/libs/utils/src/ColumnFile.cpp
@@ -28,7 +28,7 @@ size_t ColumnFile::getColumnNumber(const String& name) {
 }
 
 ColumnFile::ColumnFile(const Path& p, const Columns& columns, char delim)
-    : _file{std::fstream(p)}, _delimiter{delim},
+    : _file{std::ifstream(p)}, _delimiter{delim},
       _fileName{p.filename().string()}, _rowValues{columns.size()},
       _columnToPosition(_allColumns.size(), ColNotFound) {
   assert(_columnToPosition.size() == _allColumns.size()); // need () ctor
-- 
2.43.0


From 10abdbb1a7c467f160809cb36ae7a44233b7c226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:26 +0000
Subject: [PATCH 04/33] fix: stop asking for a choice when there is no more
 input

'Choice::get' without a default looped forever (printing the prompt) after
reaching the end of the input stream or after the terminal was closed.
---
 libs/kana/src/Choice.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libs/kana/src/Choice.cpp b/libs/kana/src/Choice.cpp
index 3c0d604..dd263dd 100644
--- a/libs/kana/src/Choice.cpp
+++ b/libs/kana/src/Choice.cpp
@@ -8,7 +8,8 @@ namespace kanji_tools {
 
 namespace {
 
-const String AlreadyInChoices{"' already in choices"};
+const String AlreadyInChoices{"' already in choices"},
+    EndOfInput{"end of input"};
 
 } // namespace
 
@@ -53,9 +54,13 @@ char Choice::get(const String& msg, bool useQuit, const Choices& choices,
   do {
     _out << prompt;
     _out.flush();
-    if (_in)
-      std::getline(*_in, line);
-    else {
+    if (_in) {
+      if (!std::getline(*_in, line)) {
+        // no more input so asking again would never end
+        if (!def) error(EndOfInput);
+        line.clear();
+      }
+    } else {
       // XCOV_EXCL_START - code only used in interactive mode
       if (const auto choice{getOneChar()}; choice == '\n')
         line.clear();
@@ -131,12 +136,14 @@ char Choice::getOneChar() {
     perror("tcsetattr() - turning on raw mode");
   // read a single char
   char result{};
-  if (read(0, &result, 1) < 0) perror("read()");
+  const auto count{read(0, &result, 1)};
+  if (count < 0) perror("read()");
   // turn raw mode off
   settings.c_lflag |= Icanon;
   settings.c_lflag |= Echo;
   if (tcsetattr(0, TCSADRAIN, &settings) < 0)
     perror("tcsetattr() - turning off raw mode");
+  if (count <= 0) error(EndOfInput);
   return result;
 }
 // XCOV_EXCL_STOP
-- 
2.43.0


From 23eab0962eabdb8b92bc936fa84db49b4bf9420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:35 +0000
Subject: [PATCH 05/33] fix: convert small Kana after a small tsu group it does
 not combine with
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

for example, "っかゃ" was returned as "ltuかゃ" (so mostly unconverted)
---
 libs/kana/src/Converter.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 063af05..41a84d0 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -261,12 +261,13 @@ String Converter::processKana(const String& kanaGroup, CharType source,
                    ? processKanaMacron(prolong, prevKana, i->second, true)
                    : processKana(firstKana, source, prevKana) +
                          processKanaMacron(prolong, prevKana, i->second);
-      // return second part unconverted - this should be impossible by design
-      // since only Kana that exists in sourceMap are added to 'kanaGroup'
-      // XCOV_EXCL_START
-      return processKana(firstKana, source, prevKana) +
-             kanaGroup.substr(Kana::OneKanaSize);
-      // XCOV_EXCL_STOP
+      // the second part isn't a Kana if a small letter that doesn't combine with
+      // the Kana before it follows a small tsu group (like 'っかゃ') so process
+      // the small letter separately
+      const auto pos{kanaGroup.size() - Kana::OneKanaSize};
+      auto result{processKana(kanaGroup.substr(0, pos), source, prevKana)};
+      return result += processKana(
+                 kanaGroup.substr(pos), source, prevKana, prolong);
     }
   } else if (prolong)
     // a 'prolong mark' at the start of a group isn't valid so in this case just
-- 
2.43.0


From 9a231a5b3ad74ba9448a598a47ed577a06688196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:52 +0000
Subject: [PATCH 06/33] fix: separate n from Kana that are vowels in the
 requested style
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

for example, "んを" became "no" (so the same as "の") for Hepburn
---
 libs/kana/include/kt_kana/Converter.h |  3 +++
 libs/kana/src/Converter.cpp           | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/kana/include/kt_kana/Converter.h b/libs/kana/include/kt_kana/Converter.h
index f325ab8..06f5c58 100644
--- a/libs/kana/include/kt_kana/Converter.h
+++ b/libs/kana/include/kt_kana/Converter.h
@@ -164,6 +164,9 @@ private:
   [[nodiscard]] const String& getN() const;
   [[nodiscard]] const String& getSmallTsu() const;
 
+  /// return true if `kana` should be separated by #Apostrophe from an 'n'
+  [[nodiscard]] bool needApostrophe(const String& kana, CharType source) const;
+
   [[nodiscard]] static bool isN(const String&);
 
   /// takes a string of Kana (so 'source' is Hiragana or Katakana) and retuns
diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 41a84d0..9750473 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -170,6 +170,15 @@ const String& Converter::getN() const { return get(Kana::N); }
 
 const String& Converter::getSmallTsu() const { return get(Kana::SmallTsu); }
 
+bool Converter::needApostrophe(const String& kana, CharType source) const {
+  if (afterN(source).contains(kana)) return true;
+  // some Kana only start with a vowel for certain flags (like を for Hepburn)
+  auto& sourceMap{Kana::getMap(source)};
+  const auto i{sourceMap.find(kana)};
+  return i != sourceMap.end() &&
+         String{"aiueo"}.find(get(*i->second)[0]) != String::npos;
+}
+
 bool Converter::isN(const String& x) { return x == "n" || x == "N"; }
 
 String Converter::fromKana(const String& kanaInput, CharType source) const {
@@ -184,7 +193,7 @@ String Converter::fromKana(const String& kanaInput, CharType source) const {
     // NOLINTNEXTLINE: NonNullParamChecker
     result += processKana(kanaGroup, source, prevKana, dt == DoneType::Prolong);
     if (romajiTarget() && Kana::N.containsKana(kanaGroup) &&
-        afterN(source).contains(kana))
+        needApostrophe(kana, source))
       result += Apostrophe;
     kanaGroup = dt == DoneType::NewGroup ? kana : emptyString();
     state = ns;
-- 
2.43.0


From eafc982871fec864118cc746545fa72a4c4b5dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:56 +0000
Subject: [PATCH 07/33] fix: only repeat a letter for a small tsu if it is a
 consonant
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"っを" became "oo" (so the same as "おお") for Hepburn
---
 libs/kana/src/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 9750473..cc0233c 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -266,7 +266,7 @@ String Converter::processKana(const String& kanaGroup, CharType source,
       if (const auto i{sourceMap.find(kanaGroup.substr(Kana::OneKanaSize))};
           i != sourceMap.end())
         return romajiTarget() && Kana::SmallTsu.containsKana(firstKana) &&
-                       repeatingConsonants().contains(i->second->romaji()[0])
+                       repeatingConsonants().contains(get(*i->second)[0])
                    ? processKanaMacron(prolong, prevKana, i->second, true)
                    : processKana(firstKana, source, prevKana) +
                          processKanaMacron(prolong, prevKana, i->second);
-- 
2.43.0


From a0ff04b6c28d1ba68d2402e7d747b974a1e28d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:00 +0000
Subject: [PATCH 08/33] fix: convert repeated upper case consonants to small
 tsu
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

for example, "KKa" became "Kか" whereas "kka" became "っか"
---
 libs/kana/src/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index cc0233c..081ddd6 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -349,7 +349,7 @@ void Converter::processRomaji(String& letters, String& result) const {
     // unconverted since no valid romaji can be longer than 3 letters
     result += lower[0] == 'n' ? getN()
               : lower[0] == lower[1] || lower[0] == 't' && lower[1] == 'c'
-                  ? repeatingConsonants().contains(letters[0])
+                  ? repeatingConsonants().contains(lower[0])
                         ? getSmallTsu()
                         : letters.substr(0, 1) // error: first letter not valid
                   : letters.substr(0, 1);      // error: first letter not valid
-- 
2.43.0


From de1db0a73747cfd56fdf1b0b72333d750cecb2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:04 +0000
Subject: [PATCH 09/33] =?UTF-8?q?fix:=20keep=20letters=20before=20the=20no?=
 =?UTF-8?q?n-R=C5=8Dmaji=20character=20that=20follows=20them?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

for example, "nか" became "かん" when converting to Hiragana
---
 libs/kana/src/Converter.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 081ddd6..3bd2bb6 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -306,6 +306,17 @@ String Converter::processKanaMacron(
 
 String Converter::toKana(const String& romajiInput) const {
   String result, letters, letter;
+  const auto flush{[this, &result, &letters] {
+    while (!letters.empty())
+      if (isN(letters)) {
+        result += getN(); // normal case for a word ending in 'n'
+        letters.clear();
+      } else {
+        result += letters[0]; // error: output the unprocessed letter
+        letters = letters.substr(1);
+        processRomaji(letters, result);
+      }
+  }};
   for (Utf8Char s{romajiInput}; s.next(letter, false);)
     if (isSingleByte(letter)) {
       if (!isN(letter)) {
@@ -322,18 +333,10 @@ String Converter::toKana(const String& romajiInput) const {
         letters = letter; // 'n' starts a new group
       }
     } else if (!processRomajiMacron(letter, letters, result)) {
-      processRomaji(letters, result);
+      flush(); // letters before 'letter' must stay before it
       result += letter;
     }
-  while (!letters.empty())
-    if (isN(letters)) {
-      result += getN(); // normal case for a word ending in 'n'
-      letters.clear();
-    } else {
-      result += letters[0]; // error: output the unprocessed letter
-      letters = letters.substr(1);
-      processRomaji(letters, result);
-    }
+  flush();
   return result;
 }
 
-- 
2.43.0


From 9a2f9ad244669c6f8061762ebbef4f75fc3d8972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:18 +0000
Subject: [PATCH 10/33] fix: convert a vowel that follows an unconvertible
 letter
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

for example, "cabi" became "caび" whereas "ca" became "cあ"
---
 libs/kana/src/Converter.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 3bd2bb6..f29fb34 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -356,9 +356,11 @@ void Converter::processRomaji(String& letters, String& result) const {
                         ? getSmallTsu()
                         : letters.substr(0, 1) // error: first letter not valid
                   : letters.substr(0, 1);      // error: first letter not valid
-    letters = letters.substr(1);
-    // try converting the shortened letters
-    processRomaji(letters, result);
+    // try converting the shortened letters (one by one since the second letter
+    // could be a vowel)
+    const String rest{letters.substr(1)};
+    letters.clear();
+    for (const auto x : rest) processRomaji(letters += x, result);
   }
 }
 
-- 
2.43.0


From 4c8a7146282f873f4c00837efb349cc27cb4d776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:22 +0000
Subject: [PATCH 11/33] fix: never repeat an earlier Kana after a prolong mark
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"かゃーゝ" became "kalyāka" whereas a repeat mark is ignored after a prolong
mark ("はーゝ" becomes "hā")
---
 libs/kana/src/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index f29fb34..f67e4e6 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -287,6 +287,7 @@ String Converter::processKana(const String& kanaGroup, CharType source,
 
 String Converter::processKanaMacron(
     bool prolong, const Kana*& prevKana, const Kana* kana, bool sokuon) const {
+  prevKana = prolong ? nullptr : kana;
   const auto& result{sokuon ? kana->getSokuonRomaji(_flags) : get(*kana)};
   if (prolong) {
     if (_target != CharType::Romaji) return result + Kana::ProlongMark;
@@ -300,7 +301,6 @@ String Converter::processKanaMacron(
       return result + Kana::ProlongMark; // shouldn't happen, return unconverted
     }
   }
-  prevKana = kana;
   return result;
 }
 
-- 
2.43.0


From c846596416baf6caf883826f2905b4dff7d35c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:36 +0000
Subject: [PATCH 12/33] fix: convert n and vowels in all groups that are not
 complete
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

for example, "can" became "caん" whereas "ca" became "cあ", and "nk" was left
unconverted whereas "nkk" became "んkk"
---
 libs/kana/src/Converter.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index f67e4e6..2ea3dcd 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -307,15 +307,14 @@ String Converter::processKanaMacron(
 String Converter::toKana(const String& romajiInput) const {
   String result, letters, letter;
   const auto flush{[this, &result, &letters] {
-    while (!letters.empty())
-      if (isN(letters)) {
+    while (!letters.empty()) {
+      if (isN(letters.substr(0, 1)))
         result += getN(); // normal case for a word ending in 'n'
-        letters.clear();
-      } else {
+      else
         result += letters[0]; // error: output the unprocessed letter
-        letters = letters.substr(1);
-        processRomaji(letters, result);
-      }
+      letters = letters.substr(1);
+      processRomaji(letters, result);
+    }
   }};
   for (Utf8Char s{romajiInput}; s.next(letter, false);)
     if (isSingleByte(letter)) {
@@ -328,8 +327,7 @@ String Converter::toKana(const String& romajiInput) const {
         // got two 'n's in a row so output one, but don't clear letters
         result += getN();
       else {
-        // error: partial romaji followed by n, output unconverted partial group
-        result += letters;
+        flush(); // error: partial romaji followed by n
         letters = letter; // 'n' starts a new group
       }
     } else if (!processRomajiMacron(letter, letters, result)) {
-- 
2.43.0


From 4a708bcf0a71b75decfb95bf0a90d5671a387527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:38:35 +0000
Subject: [PATCH 13/33] fix: repeat the last Kana of a pair that does not
 combine
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"やゃゝ" became "yalyaya" since both parts set the previous Kana, but in an
unspecified order
---
 libs/kana/src/Converter.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 2ea3dcd..3db42ca 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -264,12 +264,14 @@ String Converter::processKana(const String& kanaGroup, CharType source,
     if (kanaGroup.size() > Kana::OneKanaSize) {
       const auto firstKana{kanaGroup.substr(0, Kana::OneKanaSize)};
       if (const auto i{sourceMap.find(kanaGroup.substr(Kana::OneKanaSize))};
-          i != sourceMap.end())
-        return romajiTarget() && Kana::SmallTsu.containsKana(firstKana) &&
-                       repeatingConsonants().contains(get(*i->second)[0])
-                   ? processKanaMacron(prolong, prevKana, i->second, true)
-                   : processKana(firstKana, source, prevKana) +
-                         processKanaMacron(prolong, prevKana, i->second);
+          i != sourceMap.end()) {
+        if (romajiTarget() && Kana::SmallTsu.containsKana(firstKana) &&
+            repeatingConsonants().contains(get(*i->second)[0]))
+          return processKanaMacron(prolong, prevKana, i->second, true);
+        // process in order since 'prevKana' must be set by the second part
+        auto result{processKana(firstKana, source, prevKana)};
+        return result += processKanaMacron(prolong, prevKana, i->second);
+      }
       // the second part isn't a Kana if a small letter that doesn't combine with
       // the Kana before it follows a small tsu group (like 'っかゃ') so process
       // the small letter separately
-- 
2.43.0


From d5babfe451894432af7d8d6ab72764866d7ad19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:06 +0000
Subject: [PATCH 14/33] fix: honour '-n' of kanaConvert when strings are given

---
 libs/kana/src/KanaConvert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/KanaConvert.cpp b/libs/kana/src/KanaConvert.cpp
index 5e77ed3..58e210a 100644
--- a/libs/kana/src/KanaConvert.cpp
+++ b/libs/kana/src/KanaConvert.cpp
@@ -231,7 +231,7 @@ void KanaConvert::start(const List& strings) {
                 !(_converter.flags() & ConvertFlags::RemoveSpaces);
       convert(i);
     }
-    _out << '\n';
+    if (!_suppressNewLine) _out << '\n';
   }
 }
 
-- 
2.43.0


From a698610348b6596901e8b677b0bb19308731bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:10 +0000
Subject: [PATCH 15/33] =?UTF-8?q?fix:=20put=20a=20space=20between=20string?=
 =?UTF-8?q?s=20converted=20to=20R=C5=8Dmaji?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 libs/kana/src/KanaConvert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/KanaConvert.cpp b/libs/kana/src/KanaConvert.cpp
index 58e210a..75d5551 100644
--- a/libs/kana/src/KanaConvert.cpp
+++ b/libs/kana/src/KanaConvert.cpp
@@ -227,7 +227,7 @@ void KanaConvert::start(const List& strings) {
       if (space)
         _out << (_converter.target() == CharType::Romaji ? " " : "　");
       else
-        space = _converter.target() != CharType::Romaji &&
+        space = _converter.target() == CharType::Romaji ||
                 !(_converter.flags() & ConvertFlags::RemoveSpaces);
       convert(i);
     }
-- 
2.43.0


From 7a99f2065bd79bc306d8c08d2ea544214fe9dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:13 +0000
Subject: [PATCH 16/33] fix: only treat 'q' as quit in interactive mode

---
 libs/kana/src/KanaConvert.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/kana/src/KanaConvert.cpp b/libs/kana/src/KanaConvert.cpp
index 75d5551..898ee3a 100644
--- a/libs/kana/src/KanaConvert.cpp
+++ b/libs/kana/src/KanaConvert.cpp
@@ -237,7 +237,8 @@ void KanaConvert::start(const List& strings) {
 
 void KanaConvert::getInput() {
   if (_interactive) printOptions();
-  for (String line; std::getline(_in ? *_in : std::cin, line) && line != "q";) {
+  for (String line; std::getline(_in ? *_in : std::cin, line);) {
+    if (_interactive && line == "q") break;
     if (_interactive && !processLine(line)) continue;
     convert(line);
     if (!_suppressNewLine) _out << '\n';
-- 
2.43.0


From a7009a665e07fcd234d0e9712068e1b04045c6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:17 +0000
Subject: [PATCH 17/33] fix: keep a last line that ends with a Kanji when
 formatting

---
 apps/formatMain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/formatMain.cpp b/apps/formatMain.cpp
index 299c411..0bbedfb 100644
--- a/apps/formatMain.cpp
+++ b/apps/formatMain.cpp
@@ -40,6 +40,7 @@ void format(Args args) {
       std::cout << line << '\n';
     prevLine = line;
   }
+  if (prevLineEndedWithKanji) std::cout << prevLine << '\n';
 }
 
 int main(int argc, const char** argv) {
-- 
2.43.0


From 82d15cb1966d448dedc0521d3afb10f8333f626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:22 +0000
Subject: [PATCH 18/33] fix: allow formatting files that are read-only

---
 apps/formatMain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/formatMain.cpp b/apps/formatMain.cpp
index 0bbedfb..b26858b 100644
--- a/apps/formatMain.cpp
+++ b/apps/formatMain.cpp
@@ -16,7 +16,7 @@ void format(Args args) {
     throw DomainError("file not found: " + file.string());
   const std::wregex endsWithKanji{std::wstring{L"["} + KanjiRange() + L"]{1}$"},
       allKana{std::wstring{L"^["} + KanaRange() + L"]+$"};
-  std::fstream f{file};
+  std::ifstream f{file};
   String line, prevLine;
   auto prevLineEndedWithKanji{false};
   while (std::getline(f, line)) {
-- 
2.43.0


From efe1d3b3d4163e39e5c89f2b84f18f31d2de3358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:59:16 +0000
Subject: [PATCH 19/33] fix: avoid running out of stack when formatting long
 lines

---
 apps/formatMain.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/formatMain.cpp b/apps/formatMain.cpp
index b26858b..b9480b7 100644
--- a/apps/formatMain.cpp
+++ b/apps/formatMain.cpp
@@ -15,13 +15,13 @@ void format(Args args) {
   if (!std::filesystem::is_regular_file(file))
     throw DomainError("file not found: " + file.string());
   const std::wregex endsWithKanji{std::wstring{L"["} + KanjiRange() + L"]{1}$"},
-      allKana{std::wstring{L"^["} + KanaRange() + L"]+$"};
+      nonKana{std::wstring{L"[^"} + KanaRange() + L"]"};
   std::ifstream f{file};
   String line, prevLine;
   auto prevLineEndedWithKanji{false};
   while (std::getline(f, line)) {
     if (auto wline{fromUtf8ToWstring(line)}; prevLineEndedWithKanji) {
-      if (std::regex_search(wline, allKana)) {
+      if (!wline.empty() && !std::regex_search(wline, nonKana)) {
         prevLineEndedWithKanji = false;
         // The previous line ended with kanji and current line is all hiragana
         // so assume the current line is furigana for the kanji at the end of
-- 
2.43.0


From 8e5069d4162f272c82fb2770fd59cd8268c12a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:01:17 +0000
Subject: [PATCH 20/33] fix: KanjiData kept the maximum frequency of data
 loaded earlier

'_maxFrequency' is static and was never reset, so after loading a data
directory with a shorter frequency list 'maxFrequency' was too big and
'findByFrequency' read past the end of a bucket. It also indexed outside
the buckets for positions above 2750.
---
 libs/kanji/src/KanjiData.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libs/kanji/src/KanjiData.cpp b/libs/kanji/src/KanjiData.cpp
index 5f35259..d1f8291 100644
--- a/libs/kanji/src/KanjiData.cpp
+++ b/libs/kanji/src/KanjiData.cpp
@@ -110,9 +110,11 @@ KanjiPtr KanjiData::findByFrequency(Kanji::Frequency freq) const {
   if (!freq || freq >= _maxFrequency) return {};
   auto bucket{--freq};
   bucket /= FrequencyEntries;
-  if (bucket == FrequencyBuckets)
-    --bucket; // last bucket contains FrequencyEntries + 1
-  return _frequencies[bucket][freq - bucket * FrequencyEntries];
+  if (bucket >= FrequencyBuckets)
+    bucket = FrequencyBuckets - 1; // last bucket has all remaining entries
+  const auto& list{_frequencies[bucket]};
+  const auto i{static_cast<size_t>(freq - bucket * FrequencyEntries)};
+  return i < list.size() ? list[i] : KanjiPtr{};
 }
 
 const KanjiData::List& KanjiData::findByMorohashiId(
@@ -152,6 +154,7 @@ KanjiData::KanjiData(const Path& dataDir, DebugMode debugMode,
   // example ListFile tests can leave some data in these sets before Quiz
   // tests are run (leading to problems loading real files).
   ListFile::clearUniqueCheckData();
+  _maxFrequency = 0; // don't keep the value from previously loaded data
   if (fullDebug()) log(true) << "Begin Loading Data\n>>>\n";
 }
 
-- 
2.43.0


From 22de424e8dd4b848060324ace492155cdc1bd534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:10:41 +0000
Subject: [PATCH 21/33] fix: count characters of files that may only be read

'Utf8Count' opened files with 'std::fstream', i.e., for reading and writing,
so the contents of a file without write permission were silently ignored.
---
 libs/stats/src/Utf8Count.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/stats/src/Utf8Count.cpp b/libs/stats/src/Utf8Count.cpp
index 1bdaa28..27c4414 100644
--- a/libs/stats/src/Utf8Count.cpp
+++ b/libs/stats/src/Utf8Count.cpp
@@ -119,14 +119,14 @@ size_t Utf8Count::processFile(const fs::path& file, const OptString& tag) {
   if (_find) return processFileWithRegex(file, tag);
   size_t added{};
   String line;
-  for (std::fstream f{file}; (std::getline(f, line));) added += add(line, tag);
+  for (std::ifstream f{file}; (std::getline(f, line));) added += add(line, tag);
   return added;
 }
 
 size_t Utf8Count::processFileWithRegex(
     const fs::path& file, const OptString& tag) {
   size_t added{};
-  std::fstream f{file};
+  std::ifstream f{file};
   String line, prevLine;
   for (auto prevUnclosed{false}; std::getline(f, line);
        prevUnclosed = hasUnclosedBrackets(prevLine)) {
-- 
2.43.0


From 4ca457cd47372d8e4111024065aa7d24f18f7b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:18:58 +0000
Subject: [PATCH 22/33] fix: don't treat lines with invalid UTF-8 as changed by
 Furigana removal

When a regex was used every line containing invalid UTF-8 was counted (and
shown) as a replacement and its errors weren't counted, because the result
of the conversion from and to UTF-8 was compared with the original line.
---
 libs/stats/src/Utf8Count.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/stats/src/Utf8Count.cpp b/libs/stats/src/Utf8Count.cpp
index 27c4414..638c3ef 100644
--- a/libs/stats/src/Utf8Count.cpp
+++ b/libs/stats/src/Utf8Count.cpp
@@ -28,8 +28,12 @@ Utf8Count::Utf8Count(
 size_t Utf8Count::add(const String& s, const OptString& tag) {
   auto n{s};
   if (_find) {
-    n = toUtf8(std::regex_replace(fromUtf8ToWstring(s), *_find, _replace));
-    if (n != s) {
+    // compare wide strings since 'n' would always be different from 's' if 's'
+    // contains invalid UTF-8 (and then errors also wouldn't get counted)
+    const auto before{fromUtf8ToWstring(s)};
+    if (const auto after{std::regex_replace(before, *_find, _replace)};
+        after != before) {
+      n = toUtf8(after);
       ++_replacements;
       if (tag && tag != _lastReplaceTag) {
         if (_debug) *_debug << "Tag '" << *tag << "'\n";
-- 
2.43.0


From 6d2001de71c68e6f5e133d3185120fe27385da21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:25:41 +0000
Subject: [PATCH 23/33] fix: order statistics entries by count, frequency, type
 and name

The conditions were not nested, so an entry with a smaller count was also
'less' when it had the same frequency and an earlier type, or the same type
and a smaller name. The order was not a strict weak one, so entries could be
shown in the wrong order.
---
 libs/stats/src/Stats.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/stats/src/Stats.cpp b/libs/stats/src/Stats.cpp
index dcaf834..ae66f63 100644
--- a/libs/stats/src/Stats.cpp
+++ b/libs/stats/src/Stats.cpp
@@ -110,10 +110,9 @@ KanjiTypes Stats::Count::type() const {
 }
 
 bool Stats::Count::operator<(const Count& x) const {
-  return _count > x._count ||
-         (_count == x._count && frequency() < x.frequency() ||
-             (frequency() == x.frequency() && type() < x.type() ||
-                 (type() == x.type() && _name < x._name)));
+  if (_count != x._count) return _count > x._count;
+  if (frequency() != x.frequency()) return frequency() < x.frequency();
+  return type() != x.type() ? type() < x.type() : _name < x._name;
 }
 
 std::ostream& operator<<(std::ostream& os, const Stats::Count& c) {
-- 
2.43.0


From 0b3be686c15af2c9fff3f79268a441749afd596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:48:50 +0000
Subject: [PATCH 24/33] fix: list a compound word once for a kanji it contains
 twice
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

find() returned a word like 一長一短 once for every occurrence of the kanji.
---
 libs/quiz/src/JukugoData.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/quiz/src/JukugoData.cpp b/libs/quiz/src/JukugoData.cpp
index 7d13b96..0809383 100644
--- a/libs/quiz/src/JukugoData.cpp
+++ b/libs/quiz/src/JukugoData.cpp
@@ -115,7 +115,11 @@ void JukugoData::createJukugo(
     const auto jukugo{std::make_shared<Jukugo>(name, reading, grade)};
     Utf8Char nameChars{name};
     for (String c; nameChars.next(c);)
-      if (isKanji(c)) _kanjiToJukugo[c].emplace_back(jukugo);
+      if (isKanji(c)) {
+        // a kanji can occur more than once in a word (like 一 in 一長一短)
+        auto& list{_kanjiToJukugo[c]};
+        if (list.empty() || list.back() != jukugo) list.emplace_back(jukugo);
+      }
     _uniqueJukugo.emplace(key, jukugo);
   } else if (i->second->grade() != grade)
     throw DomainError("jukugo '" + name + "' found in more than one file");
-- 
2.43.0


From 4d6b274c952b36558d3f0b3f4332670d3f647d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:48:55 +0000
Subject: [PATCH 25/33] fix: report a close bracket before the open bracket of
 a compound word

The length of the reading became negative, so the rest of the entry (with
its brackets) was taken as the reading.
---
 libs/quiz/src/JukugoData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/quiz/src/JukugoData.cpp b/libs/quiz/src/JukugoData.cpp
index 0809383..454bc4b 100644
--- a/libs/quiz/src/JukugoData.cpp
+++ b/libs/quiz/src/JukugoData.cpp
@@ -101,6 +101,7 @@ void JukugoData::createJukugo(
     const String& line, KanjiGrades grade, bool onePerLine) {
   const auto open{findOpenBracket(line, onePerLine)},
       close{findCloseBracket(line, onePerLine)};
+  if (close < open) error("close bracket found before open bracket");
   const auto name{line.substr(0, onePerLine ? open - 1 : open)},
       reading{line.substr(open + 1, close - open - 1)};
   // There are some duplicates in data files which makes sense for
-- 
2.43.0


From bd783bf3108161d86084abe6ad40939c39976bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:49:02 +0000
Subject: [PATCH 26/33] fix: report -r or -t followed by only a sign as invalid

std::stoul threw std::invalid_argument instead (message 'stoul').
---
 libs/quiz/src/QuizLauncher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/quiz/src/QuizLauncher.cpp b/libs/quiz/src/QuizLauncher.cpp
index 2b26469..5642b82 100644
--- a/libs/quiz/src/QuizLauncher.cpp
+++ b/libs/quiz/src/QuizLauncher.cpp
@@ -276,7 +276,7 @@ QuizLauncher::Question QuizLauncher::processProgramModeArg(const String& arg) {
         if (arg[2] == '+') offset = 3;
       }
       const auto s{arg.substr(offset)};
-      if (!std::all_of(s.begin(), s.end(), ::isdigit))
+      if (s.empty() || !std::all_of(s.begin(), s.end(), ::isdigit))
         KanjiData::usage(
             "invalid format for '" + arg.substr(0, 2) + "', use -h for help");
       if (const auto i{std::stoul(s)};
-- 
2.43.0


From ef7ce3d6680fc8b553c47966101a72e1e5b763d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:49:08 +0000
Subject: [PATCH 27/33] fix: report a huge number after -r or -t as exceeding
 the limit

std::stoul threw std::out_of_range for numbers that don't fit in 64 bits.
---
 libs/quiz/src/QuizLauncher.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/quiz/src/QuizLauncher.cpp b/libs/quiz/src/QuizLauncher.cpp
index 5642b82..65543b4 100644
--- a/libs/quiz/src/QuizLauncher.cpp
+++ b/libs/quiz/src/QuizLauncher.cpp
@@ -279,9 +279,10 @@ QuizLauncher::Question QuizLauncher::processProgramModeArg(const String& arg) {
       if (s.empty() || !std::all_of(s.begin(), s.end(), ::isdigit))
         KanjiData::usage(
             "invalid format for '" + arg.substr(0, 2) + "', use -h for help");
-      if (const auto i{std::stoul(s)};
-          i <= std::numeric_limits<Question>::max())
-        return static_cast<Question>(i);
+      // extracting a value that is too large fails (unlike 'std::stoul' which
+      // throws 'std::out_of_range')
+      std::stringstream ss{s};
+      if (Question i{}; ss >> i) return i;
       KanjiData::usage("value for '" + arg.substr(0, 2) + "' exceeds limit");
     }
   }
-- 
2.43.0


From fae210cf1b208545347646248633ff2feb2debd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:49:14 +0000
Subject: [PATCH 28/33] fix: check answers with upper case letters in large
 groups

The readings after the 26th have letters 'A', 'B', .. which are all less than
'z', so a negative index was used for them.
---
 libs/quiz/src/GroupQuiz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/quiz/src/GroupQuiz.cpp b/libs/quiz/src/GroupQuiz.cpp
index 4ee0f79..f44d1b1 100644
--- a/libs/quiz/src/GroupQuiz.cpp
+++ b/libs/quiz/src/GroupQuiz.cpp
@@ -258,7 +258,7 @@ void GroupQuiz::checkAnswers(
   size_t correctCount{};
   for (size_t count{}; auto i : _answers) {
     const auto answer{
-        static_cast<size_t>(i <= 'z' ? i - 'a' : i - 'A' + TotalLetters)};
+        static_cast<size_t>(i >= 'a' ? i - 'a' : i - 'A' + TotalLetters)};
     // always look at reading for a match and only additionally require matching
     // meanings if '_showMeanings' is true
     if (questions[count]->reading() == readings[answer]->reading() &&
-- 
2.43.0


From e983e2f388d51a03c19ecb9ef695195f9449a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:49:36 +0000
Subject: [PATCH 29/33] fix: leave out groups with less than two members when
 showing all in order

Kanji without a reading are never included, but 'all' groups shown from the
beginning were not filtered: a group with no members left counted as correctly
answered without asking anything (even in review mode).
---
 libs/quiz/src/GroupQuiz.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/quiz/src/GroupQuiz.cpp b/libs/quiz/src/GroupQuiz.cpp
index f44d1b1..f6313a7 100644
--- a/libs/quiz/src/GroupQuiz.cpp
+++ b/libs/quiz/src/GroupQuiz.cpp
@@ -34,10 +34,7 @@ GroupQuiz::GroupQuiz(const QuizLauncher& launcher, Question question,
     const auto c{get("Pattern name", PatternGroupChoices, '1')};
     if (isQuit(c)) return;
     start(prepareList(list, c - '1'));
-  } else if (launcher.questionOrder() == QuestionOrder::FromBeginning &&
-             _memberType == MemberType::All)
-    start(list); // can use the original list in this case
-  else
+  } else
     start(prepareList(list));
 }
 
-- 
2.43.0


From b286bfd17f92ca6c8f4111e55608a4ed7d7a54dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:49:42 +0000
Subject: [PATCH 30/33] fix: limit the choices of a list quiz to the number of
 different readings

The choices of a question have different readings, so the search for another
one never ended for lists with less readings than choices.
---
 libs/quiz/include/kt_quiz/ListQuiz.h |  3 +++
 libs/quiz/src/ListQuiz.cpp           | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/libs/quiz/include/kt_quiz/ListQuiz.h b/libs/quiz/include/kt_quiz/ListQuiz.h
index e7dde6c..3547b2d 100644
--- a/libs/quiz/include/kt_quiz/ListQuiz.h
+++ b/libs/quiz/include/kt_quiz/ListQuiz.h
@@ -40,6 +40,9 @@ public:
       QuizStyle quizStyle);
 
 private:
+  /// there can't be more choices than different readings in `list`
+  [[nodiscard]] static ChoiceCount limitChoices(ChoiceCount, const List& list);
+
   void start(const List&);
 
   [[nodiscard]] const String& getPrompt() const;
diff --git a/libs/quiz/src/ListQuiz.cpp b/libs/quiz/src/ListQuiz.cpp
index 082321e..b6a46e7 100644
--- a/libs/quiz/src/ListQuiz.cpp
+++ b/libs/quiz/src/ListQuiz.cpp
@@ -23,9 +23,9 @@ ListQuiz::ListQuiz(const QuizLauncher& launcher, Question question,
     bool showMeanings, const List& list, Kanji::Info fields,
     ChoiceCount choiceCount, QuizStyle quizStyle)
     : Quiz{launcher, question, showMeanings},
-      _answers(choiceCount), _infoFields{fields}, _choiceCount{choiceCount},
-      _quizStyle{quizStyle}, _prompt{getPrompt()}, _choiceEnd{toChar(
-                                                       '0' + _choiceCount)} {
+      _answers(limitChoices(choiceCount, list)), _infoFields{fields},
+      _choiceCount{limitChoices(choiceCount, list)}, _quizStyle{quizStyle},
+      _prompt{getPrompt()}, _choiceEnd{toChar('0' + _choiceCount)} {
   assert(_answers.size() == _choiceCount); // need () ctor
   List questions;
   for (auto& i : list) {
@@ -45,6 +45,16 @@ ListQuiz::ListQuiz(const QuizLauncher& launcher, Question question,
   start(questions);
 }
 
+ListQuiz::ChoiceCount ListQuiz::limitChoices(
+    ChoiceCount choiceCount, const List& list) {
+  ListFile::StringSet readings;
+  for (auto& i : list) {
+    if (readings.size() == choiceCount) break;
+    readings.emplace(i->reading());
+  }
+  return static_cast<ChoiceCount>(readings.size());
+}
+
 void ListQuiz::start(const List& questions) {
   auto stopQuiz{false};
   for (; !stopQuiz && currentQuestion() < questions.size();
-- 
2.43.0


From 6ec124fdfbb6cb228a77a6c9eadfc7625a25eaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:46:57 +0000
Subject: [PATCH 31/33] fix: put the terminal back to how it was after reading
 a single key

Echo was turned on even if it had been off before (and VMIN/VTIME were left
changed).
---
 libs/kana/src/Choice.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/kana/src/Choice.cpp b/libs/kana/src/Choice.cpp
index dd263dd..53690e7 100644
--- a/libs/kana/src/Choice.cpp
+++ b/libs/kana/src/Choice.cpp
@@ -127,6 +127,7 @@ char Choice::getOneChar() {
   static constexpr tcflag_t Icanon{ICANON}, Echo{ECHO};
   struct termios settings {};
   if (tcgetattr(0, &settings) < 0) perror("tcsetattr()");
+  const auto original{settings};
   // turn raw mode on - allows getting single char without waiting for 'return'
   settings.c_lflag &= ~Icanon;
   settings.c_lflag &= ~Echo;
@@ -138,10 +139,8 @@ char Choice::getOneChar() {
   char result{};
   const auto count{read(0, &result, 1)};
   if (count < 0) perror("read()");
-  // turn raw mode off
-  settings.c_lflag |= Icanon;
-  settings.c_lflag |= Echo;
-  if (tcsetattr(0, TCSADRAIN, &settings) < 0)
+  // turn raw mode off (put the settings back to how they were)
+  if (tcsetattr(0, TCSADRAIN, &original) < 0)
     perror("tcsetattr() - turning off raw mode");
   if (count <= 0) error(EndOfInput);
   return result;
-- 
2.43.0


From d469dce26ece5ef8e4cf7ed364e1742865bec096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:38 +0000
Subject: [PATCH 32/33] fix: parseUcdAllFlat.sh gave a kanji without kJapanese
 the readings of an earlier record

---
 scripts/parseUcdAllFlat.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parseUcdAllFlat.sh b/scripts/parseUcdAllFlat.sh
index b252080..13a47ac 100755
--- a/scripts/parseUcdAllFlat.sh
+++ b/scripts/parseUcdAllFlat.sh
@@ -572,7 +572,7 @@ LinkType\tMeaning\tOn\tKun\tJapanese" >$outFile
     # No need to unset fields that are in every record such as 'cp', 'age' and
     # 'blk', but need to unset all the optional fields used in 'processRecord'.
     setVars "$s" kTraditionalVariant kSimplifiedVariant kCompatibilityVariant \
-      kSemanticVariant kRSAdobe_Japan1_6 kMandarin kNelson &&
+      kSemanticVariant kRSAdobe_Japan1_6 kMandarin kNelson kJapanese &&
       processRecord "$s" && count+=1
     # kIRG_xSource fields are also included in all Unihan records ("" if empty)
   done < <(grep -E "($outFilter)" $ucdFile)
-- 
2.43.0


From 6064c1fb300925e695cc632a2c4efca8ed5680d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:38 +0000
Subject: [PATCH 33/33] fix: parseUcdAllFlat.sh repeated the heading of the
 link counts until a type had links

---
 scripts/parseUcdAllFlat.sh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/parseUcdAllFlat.sh b/scripts/parseUcdAllFlat.sh
index 13a47ac..8fc8e68 100755
--- a/scripts/parseUcdAllFlat.sh
+++ b/scripts/parseUcdAllFlat.sh
@@ -197,7 +197,7 @@ declare -a linkErrors
 
 function printDefinitionLinkCounts {
   local -i total=0 maxLen=0 utf uni i j
-  local s types utfCounts uniCounts headers fmt2='  '
+  local s types utfCounts uniCounts headers fmt2='  ' firstType=true
   local -a pass
   for s in "${!defTypeUtf[@]}"; do
     [[ ${#s} -gt $maxLen ]] && maxLen=${#s}
@@ -215,12 +215,13 @@ function printDefinitionLinkCounts {
       uni=$(echo $uniCounts | cut -d, -f$j)
       i+=$((utf + uni))
       pass+=("'$(printf '(%3d,%3d)' $utf $uni)'")
-      if [[ $total -eq 0 ]]; then
+      if $firstType; then
         fmt2+='%-11s'
         headers+=" ' utf uni'"
       fi
     done
-    if [[ $total -eq 0 ]]; then
+    if $firstType; then
+      firstType=false
       fmt2+='\n'
       eval printf "'${fmt1}Total$fmt2'" \"Types: ${#defTypeUtf[@]}\" $headers
     fi
-- 
2.43.0

