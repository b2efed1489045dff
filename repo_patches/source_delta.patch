From 5beb91c4768c8ba58f23c546d50b965cc2d4ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:23 +0000
Subject: [PATCH 01/42] fix: index a lower-case stem under itself, not under
 each of its letters

The lower-case index iterated over the characters of lower-case stems.
With "cat" in the dictionary, "C", "A" and "T" were accepted as words.
---
 spylls/hunspell/readers/dic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 02c690d..6d23e11 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -82,7 +82,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
 
         # And cache word's casing and its lowerase form
         captype = aff.casing.guess(word)
-        lower = aff.casing.lower(word) if captype != CapType.NO else word
+        lower = aff.casing.lower(word) if captype != CapType.NO else [word]
 
         alt_spellings = []
 
-- 
2.43.0


From 2a18a1a630b74832fdb2003f069f827755269400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:24 +0000
Subject: [PATCH 02/42] fix: reject forbidden words in every capitalization and
 around breaks

Only the word exactly as passed to lookup was checked for FORBIDDENWORD.
With "bar" forbidden, "Bar", "BAR" and "foo-bar" were accepted and
"foo bar" was suggested.
---
 spylls/hunspell/algo/lookup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 9f86dd9..4256a8f 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -316,6 +316,10 @@ class Lookup:
 
         # Now, for each of capitalization variants possible
         for variant in variants:
+            # Forbidden word stays forbidden when we came to it by changing case, or by breaking the word
+            if self.aff.FORBIDDENWORD and self.dic.has_flag(variant, self.aff.FORBIDDENWORD, for_all=True):
+                continue
+
             if affix_forms:
                 # ...we yield all possible affix forms
                 for form in self.affix_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest):
-- 
2.43.0


From 49d165a1c709bcdc4b1ecdfcc3b817734ee36920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:25 +0000
Subject: [PATCH 03/42] fix: a forbidden stem rules out only the forms made
 from it

The search for affix forms stopped at the first split whose stem is
forbidden, so later splits with other stems were lost.
---
 spylls/hunspell/algo/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 4256a8f..52ecfd2 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -404,7 +404,7 @@ class Lookup:
             if (not with_forbidden and self.aff.FORBIDDENWORD and
                     (compoundpos or form.has_affixes()) and
                     any(self.aff.FORBIDDENWORD in homonym.flags for homonym in homonyms)):
-                return
+                continue
 
             for homonym in homonyms:
                 # Now, for each possible homonym of word's stem, we check it at is a "good form"
-- 
2.43.0


From e9375e5000fabf6cf7f9aed0c2a04375d37a1534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:26 +0000
Subject: [PATCH 04/42] fix: an affix does not permit itself

The check that an affix is allowed used the flags of that same affix too.
An affix whose continuation flags include its own flag was accepted on
every stem.
---
 spylls/hunspell/algo/lookup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 52ecfd2..1445ae2 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -695,11 +695,13 @@ class Lookup:
 
         # Prefix might be allowed by: a) stem having this flag or b) suffix having this flag
         # (all flags are made from suffix+prefix+stem flags)
-        if form.prefix and form.prefix.flag not in all_flags:
+        if form.prefix and form.prefix.flag not in root_flags and \
+                not (form.suffix and form.prefix.flag in form.suffix.flags):
             return False
         # Suffix might be allowed by: a) stem having this flag or b) prefix having this flag
         # (all flags are made from suffix+prefix+stem flags)
-        if form.suffix and form.suffix.flag not in all_flags:
+        if form.suffix and form.suffix.flag not in root_flags and \
+                not (form.prefix and form.suffix.flag in form.prefix.flags):
             return False
 
         # CIRCUMFIX flag, if present, used to mark suffix and prefix that should go together: if
-- 
2.43.0


From 3cf43e437951587dfa8e6f31127f1aeb7660519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:26 +0000
Subject: [PATCH 05/42] fix: COMPOUNDWORDMAX counts the last part of the
 compound

With COMPOUNDWORDMAX 2 compounds of three parts were accepted.
---
 spylls/hunspell/algo/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 1445ae2..7b6a4e4 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -784,7 +784,7 @@ class Lookup:
 
         # Check compounding limitation (if the rest of the word is less than 2 allowed parts, or if
         # the further compounding would produce more parts than allowed)
-        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth >= aff.COMPOUNDWORDMAX):
+        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth + 1 >= aff.COMPOUNDWORDMAX):
             return
 
         compoundpos = CompoundPos.MIDDLE if depth else CompoundPos.BEGIN
@@ -866,7 +866,7 @@ class Lookup:
                     yield CompoundForm([AffixForm(word_rest, word_rest)])
 
         if len(word_rest) < aff.COMPOUNDMIN * 2 or \
-                (aff.COMPOUNDWORDMAX and len(prev_parts) >= aff.COMPOUNDWORDMAX):
+                (aff.COMPOUNDWORDMAX and len(prev_parts) + 1 >= aff.COMPOUNDWORDMAX):
             return
 
         for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
-- 
2.43.0


From 80d67179dc73bac9f090a9c661728935cafae72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:27 +0000
Subject: [PATCH 06/42] fix: no IndexError for suggestions longer than the
 misspelled word

For mixed-case input, a suggested space at or after the end of the input
raised IndexError.
---
 spylls/hunspell/algo/suggest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index bc081e9..8e9f3b7 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -220,7 +220,7 @@ class Suggest:
                 # "aNew" will suggest "a new", here we fix it back to "a New"
                 if captype in [CapType.HUH, CapType.HUHINIT] and ' ' in text:
                     pos = text.find(' ')
-                    if text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]:
+                    if pos < len(word) and text[pos+1:pos+2] != word[pos] and text[pos+1:pos+2].upper() == word[pos]:
                         text = text[:pos+1] + word[pos] + text[pos+2:]
 
             # If the word is forbidden, nothing more to do
-- 
2.43.0


From 363c9fad6b0af04761fba4da39efbd04163f526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:28 +0000
Subject: [PATCH 07/42] fix: lower-casing of words starting with dotted I with
 CHECKSHARPS

The base method gives no variants for such words and for the empty word,
and taking the first one raised IndexError.
---
 spylls/hunspell/algo/capitalization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/capitalization.py b/spylls/hunspell/algo/capitalization.py
index cd69706..61e42ad 100644
--- a/spylls/hunspell/algo/capitalization.py
+++ b/spylls/hunspell/algo/capitalization.py
@@ -200,12 +200,12 @@ class GermanCasing(Casing):
             replaced = text[:pos] + 'ß' + text[pos+2:]
             return [replaced, *sharp_s_variants(replaced, pos+1), *sharp_s_variants(text, pos+2)]
 
-        lowered = super().lower(word)[0]
+        lowered = super().lower(word)
 
         if 'SS' in word:
-            return [*sharp_s_variants(lowered), lowered]
+            return [variant for text in lowered for variant in [*sharp_s_variants(text), text]]
 
-        return [lowered]
+        return lowered
 
     def guess(self, word):
         result = super().guess(word)
-- 
2.43.0


From 361d227f3a4b3da1f529c596a05d0d9c67c75da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:29 +0000
Subject: [PATCH 08/42] fix: ICONV and OCONV patterns are literal text

Characters with a special meaning in regexps were not escaped.
"ICONV . x" replaced every character.
---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 8f7e450..c92cc2e 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -425,7 +425,7 @@ class ConvTable:
     def __post_init__(self):
         def compile_row(pat1, pat2):
             pat1clean = pat1.replace('_', '')
-            pat1re = pat1clean
+            pat1re = re.escape(pat1clean)
             if pat1.startswith('_'):
                 pat1re = '^' + pat1re
             if pat1.endswith('_'):
-- 
2.43.0


From 696e8f5aa0c916738193f5a3b159ad1e790e96c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:30 +0000
Subject: [PATCH 09/42] fix: break the word at break points one character apart

The pattern consumed the characters around the break point, so the second
of two close break points was never tried.
---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index c92cc2e..c6b3abf 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -109,7 +109,7 @@ class BreakPattern:
         if pattern.startswith('^') or pattern.endswith('$'):
             self.regexp = re.compile(f"({pattern})")
         else:
-            self.regexp = re.compile(f".({pattern}).")
+            self.regexp = re.compile(f"(?<=.)({pattern})(?=.)")
 
 
 @dataclass
-- 
2.43.0


From 6a76e2c1bc42019bbfd6f437baee0ed3c676ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:39 +0000
Subject: [PATCH 10/42] fix: upper-cased sharp s is found after another S

The search for SS to read as sharp s skipped overlapping pairs.
A stem ending in s and sharp s was rejected in upper case.
---
 spylls/hunspell/algo/capitalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/capitalization.py b/spylls/hunspell/algo/capitalization.py
index 61e42ad..e9bd77c 100644
--- a/spylls/hunspell/algo/capitalization.py
+++ b/spylls/hunspell/algo/capitalization.py
@@ -198,7 +198,7 @@ class GermanCasing(Casing):
             if pos == -1:
                 return []
             replaced = text[:pos] + 'ß' + text[pos+2:]
-            return [replaced, *sharp_s_variants(replaced, pos+1), *sharp_s_variants(text, pos+2)]
+            return [replaced, *sharp_s_variants(replaced, pos+1), *sharp_s_variants(text, pos+1)]
 
         lowered = super().lower(word)
 
-- 
2.43.0


From a733b2003f8d05dc6e81918d1c7ca04fbcf285d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:40 +0000
Subject: [PATCH 11/42] fix: skip the byte-order mark of files read as UTF-8

The mark was recognized only in the Windows-1252 reading of the file.
In a UTF-8 .dic file it became a part of the first line.
---
 spylls/hunspell/readers/file_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/readers/file_reader.py b/spylls/hunspell/readers/file_reader.py
index 95fb10c..749f792 100644
--- a/spylls/hunspell/readers/file_reader.py
+++ b/spylls/hunspell/readers/file_reader.py
@@ -44,8 +44,8 @@ class BaseReader:
         ln = self.io.readline()
         while ln != '':
             self.line_no += 1
-            if self.line_no == 1 and ln.startswith("\xef\xbb\xbf"):
-                ln = ln.replace("\xef\xbb\xbf", '')
+            if self.line_no == 1 and ln.startswith(("\xef\xbb\xbf", "\ufeff")):
+                ln = ln.replace("\xef\xbb\xbf", '').replace("\ufeff", '')
             yield (self.line_no, ln.strip())
             ln = self.io.readline()
 
-- 
2.43.0


From fb5641d4bc4e84a607e7651df1d22c01d262e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:41 +0000
Subject: [PATCH 12/42] fix: suggest only correct words in n-gram and phonetic
 search

Both searches produce bare stems and mechanically affixed forms.
Some of them are not words, for example stems marked NEEDAFFIX.
---
 spylls/hunspell/algo/suggest.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index 8e9f3b7..c3646ff 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -345,6 +345,8 @@ class Suggest:
 
         ngrams_seen = 0
         for sug in self.ngram_suggestions(word, handled=handled):
+            if not is_good_suggestion(sug):
+                continue
             for res in handle_found(Suggestion(sug, 'ngram'), check_inclusion=True):
                 ngrams_seen += 1
                 yield res
@@ -356,6 +358,8 @@ class Suggest:
 
         phonet_seen = 0
         for sug in self.phonet_suggestions(word):
+            if not is_good_suggestion(sug):
+                continue
             for res in handle_found(Suggestion(sug, 'phonet'), check_inclusion=True):
                 phonet_seen += 1
                 yield res
-- 
2.43.0


From 5aa8ce830ceffaa404c28f1de68840293ec9e676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:42 +0000
Subject: [PATCH 13/42] fix: stop at the suggestion limit instead of one past
 it

Up to 16 edits were suggested with the limit of 15, and one compound with
MAXCPDSUGS 0.
---
 spylls/hunspell/algo/suggest.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index c3646ff..134a1b2 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -392,6 +392,8 @@ class Suggest:
                         yield suggestion
 
         count = 0
+        if limit < 1:
+            return
 
         for suggestion in filter_suggestions(self.edits(word)):
             # Then, for each of those correct suggestions,
@@ -402,7 +404,7 @@ class Suggest:
                 yield res
                 count += 1
 
-                if count > limit:
+                if count >= limit:
                     return
 
     def edits(self, word: str) -> Iterator[Union[Suggestion, MultiWordSuggestion]]:
-- 
2.43.0


From 2cf3c41227fc8ad061aeac140f0012d9ac2a60ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:43 +0000
Subject: [PATCH 14/42] fix: added text of affixes is literal

It was used as a regexp, so an affix with a dot or another special
character removed the wrong text or failed to compile.
---
 spylls/hunspell/data/aff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index c6b3abf..05e1481 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -234,7 +234,7 @@ class Prefix(Affix):
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
         self.cond_regexp = re.compile('^' + self.condition.replace('-', '\\-'))
-        self.replace_regexp = re.compile('^' + self.add)
+        self.replace_regexp = re.compile('^' + re.escape(self.add))
 
     def __repr__(self):
         return (
@@ -253,7 +253,7 @@ class Suffix(Affix):
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
         self.cond_regexp = re.compile(self.condition.replace('-', '\\-') + '$')
-        self.replace_regexp = re.compile(self.add + '$')
+        self.replace_regexp = re.compile(re.escape(self.add) + '$')
 
     def __repr__(self):
         return (
-- 
2.43.0


From 69d0ebf185210cef5072681923902bd089cb469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:44 +0000
Subject: [PATCH 15/42] fix: match compound rules flag by flag

Flags were joined without separators and without escaping.
Numeric flags 1 and 11 were mixed up, and flags like "." matched any flag.
---
 spylls/hunspell/data/aff.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 05e1481..d148765 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -309,14 +309,12 @@ class CompoundRule:
         # TODO: proper flag parsing! Long is (aa)(bb)*(cc), numeric is (1001)(1002)*(1003)
         # This works but is super ad-hoc!
         if '(' in self.text:
-            self.flags = set(re.findall(r'\((.+?)\)', self.text))
-            parts = re.findall(r'\([^*?]+?\)[*?]?', self.text)
+            tokens = re.findall(r'\(([^*?]+?)\)([*?]?)', self.text)
         else:
-            self.flags = set(re.sub(r'[\*\?]', '', self.text))
-            # There are ) flags used in real-life sv_* dictionaries
-            # Obviously it is quite ad-hoc (other chars that have special meaning in regexp might be
-            # used eventually)
-            parts = [part.replace(')', '\\)') for part in re.findall(r'[^*?][*?]?', self.text)]
+            tokens = re.findall(r'([^*?])([*?]?)', self.text)
+
+        self.flags = {flag for flag, _ in tokens}
+        parts = [f"(?:{re.escape(flag)},){quantifier}" for flag, quantifier in tokens]
 
         self.re = re.compile(''.join(parts))
         self.partial_re = re.compile(
@@ -326,14 +324,14 @@ class CompoundRule:
     def fullmatch(self, flag_sets):
         relevant_flags = [self.flags.intersection(f) for f in flag_sets]
         return any(
-            self.re.fullmatch(''.join(fc))
+            self.re.fullmatch(''.join(f"{flag}," for flag in fc))
             for fc in itertools.product(*relevant_flags)
         )
 
     def partial_match(self, flag_sets):
         relevant_flags = [self.flags.intersection(f) for f in flag_sets]
         return any(
-            self.partial_re.fullmatch(''.join(fc))
+            self.partial_re.fullmatch(''.join(f"{flag}," for flag in fc))
             for fc in itertools.product(*relevant_flags)
         )
 
-- 
2.43.0


From c514762290513d1e695cceb7665db215b2e695d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:45 +0000
Subject: [PATCH 16/42] fix: keep the order of aliased word data

AM aliases were stored in sets, so the order of ph: replacements and of
the resulting suggestions changed from process to process.
---
 spylls/hunspell/data/aff.py    | 2 +-
 spylls/hunspell/readers/aff.py | 2 +-
 spylls/hunspell/readers/dic.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index d148765..3a0042e 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -1107,7 +1107,7 @@ class Aff:
     #: Table of word data aliases. Logic of aliasing is the same as for :attr:`AM`.
     #:
     #: *Usage:* :meth:`read_dic <spylls.hunspell.readers.dic.read_dic>`
-    AM: Dict[str, Set[str]] = field(default_factory=dict)
+    AM: Dict[str, List[str]] = field(default_factory=dict)
 
     # **Other**
 
diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 4248bfa..2344461 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -262,7 +262,7 @@ def read_value(source: BaseReader, directive: str, *values, context: Context) ->
         }
     if directive == 'AM':
         return {
-            str(i + 1): {*ln}
+            str(i + 1): ln
             for i, ln in enumerate(_read_array())
         }
     if directive == 'COMPOUNDSYLLABLE':
diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 6d23e11..dfbeb6a 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -124,7 +124,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
     return result
 
 
-def parse_data(text: str, aliases: Dict[str, Set[str]]) -> Dict[str, List[str]]:
+def parse_data(text: str, aliases: Dict[str, List[str]]) -> Dict[str, List[str]]:
     """
     Parse data tags after stem.
     There can be *anything* in this part of the data, but parsed and processed are:
-- 
2.43.0


From a532c7b765fa0ead66ed3c3fe90d0176012a4012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:46 +0000
Subject: [PATCH 17/42] fix: dash suggestions are not repeated and are
 suggestable

They were not remembered, so the same text could follow once more from
another search, and words marked NOSUGGEST passed the check.
---
 spylls/hunspell/algo/suggest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index 134a1b2..8a7249e 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -334,7 +334,8 @@ class Suggest:
                         # are ambiguities how to split: if we are fixing "quas-Afro-American"->"quasi-Afro-American",
                         # and "Afro-American" is present in the dictionary as a whole word, it is better
                         # to delegate search for the right breaking to the Lookup.
-                        if self.lookup(candidate):
+                        if candidate not in handled and self.lookup(candidate, allow_nosuggest=False):
+                            handled.add(candidate)
                             yield Suggestion(candidate, 'dashes')
                     # after only one misspelled chunk, we stop the search anyways, whether we found some
                     # sugestions or not
-- 
2.43.0


From b8b126af29f38cfd18adc09082ccb09aa54936ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:47 +0000
Subject: [PATCH 18/42] fix: CHECKCOMPOUNDTRIPLE needs three letters

With one-letter parts two equal letters were taken for a triple.
---
 spylls/hunspell/algo/lookup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 7b6a4e4..aa176ca 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -927,7 +927,8 @@ class Lookup:
             if aff.CHECKCOMPOUNDTRIPLE:
                 # CHECKCOMPOUNDTRIPLE setting tells, that if there is triplificatioin of some letter
                 # on the bound of two parts (like "foobb" + "bar"), it is not correct compound word
-                if len(set(left[-2:] + right[:1])) == 1 or len(set(left[-1:] + right[:2])) == 1:
+                if any(len(bound) == 3 and len(set(bound)) == 1
+                       for bound in [left[-2:] + right[:1], left[-1:] + right[:2]]):
                     return True
 
             if aff.CHECKCOMPOUNDCASE:
-- 
2.43.0


From 1a6019344d8a4b6d80abbcc6766e368a578d378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:48 +0000
Subject: [PATCH 19/42] fix: read affix classes without rules

"SFX A Y 0" failed to load.
---
 spylls/hunspell/readers/aff.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 2344461..6d9fc3d 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -110,7 +110,8 @@ def read_aff(source: BaseReader) -> Tuple[aff.Aff, Context]:
 
         # SFX/PFX are the only directives that have multiple entries in .aff file
         if directive in ['SFX', 'PFX']:
-            data[directive][value[0].flag] = value
+            if value:
+                data[directive][value[0].flag] = value
         else:
             data[directive] = value
 
@@ -198,7 +199,7 @@ def read_value(source: BaseReader, directive: str, *values, context: Context) ->
     value = values[0] if values else None
 
     def _read_array(count=None):
-        if not count:
+        if count is None:
             count = int(value)
 
         # TODO: handle if fetching it we'll find something NOT starting with teh expected directive name
-- 
2.43.0


From 59669eb191c168077b0a9b5dee95a7ee6b52250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:49 +0000
Subject: [PATCH 20/42] fix: keep the outer prefix of forms that also have a
 suffix

It was lost when the suffix was split off, so the form did not describe
the word and its NEEDAFFIX check was wrong.
---
 spylls/hunspell/algo/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index aa176ca..ff3df61 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -537,7 +537,7 @@ class Lookup:
                 # AND suffix split out
                 if suffix_allowed and form.prefix and form.prefix.crossproduct:
                     yield from (
-                        form2.replace(text=form.text, prefix=form.prefix)
+                        form2.replace(text=form.text, prefix=form.prefix, prefix2=form.prefix2)
                         for form2 in self.desuffix(form.stem,
                                                    required_flags=suffix_flags,
                                                    forbidden_flags=forbidden_flags,
-- 
2.43.0


From f2293e9bd79ce1c21c1682be21013e59af1a3b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:50 +0000
Subject: [PATCH 21/42] fix: text of REP and ph: patterns is literal

Only ^ and $ are special. Other characters were taken for regexp syntax,
and a pattern like "c++" failed to load.
---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 3a0042e..d74e4c5 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -154,7 +154,7 @@ class RepPattern:
     replacement: str
 
     def __post_init__(self):
-        self.regexp = re.compile(self.pattern)
+        self.regexp = re.compile(re.escape(self.pattern).replace('\\^', '^').replace('\\$', '$'))
 
 
 @dataclass
-- 
2.43.0


From 2890ff8f24a83f1e732def4f29cdf722e0166ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:51 +0000
Subject: [PATCH 22/42] fix: try moves and swaps up to the documented distance

Characters were moved by at most three places and never to the end of the
word, and swapped at distance of at most three.
---
 spylls/hunspell/algo/permutations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index d6e1089..53dde25 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -102,7 +102,7 @@ def longswapchar(word: str) -> Iterator[str]:
     """
 
     for first in range(len(word) - 2):
-        for second in range(first + 2, min(first + MAX_CHAR_DISTANCE, len(word))):
+        for second in range(first + 2, min(first + MAX_CHAR_DISTANCE + 1, len(word))):
             yield word[:first] + word[second] + word[first+1:second] + word[first] + word[second+1:]
 
 
@@ -170,11 +170,11 @@ def movechar(word: str) -> Iterator[str]:
         return
 
     for frompos, char in enumerate(word):
-        for topos in range(frompos + 3, min(len(word), frompos + MAX_CHAR_DISTANCE + 1)):
+        for topos in range(frompos + 3, min(len(word), frompos + MAX_CHAR_DISTANCE + 1) + 1):
             yield word[:frompos] + word[frompos+1:topos] + char + word[topos:]
 
     for frompos in reversed(range(len(word))):
-        for topos in reversed(range(max(0, frompos - MAX_CHAR_DISTANCE + 1), frompos - 1)):
+        for topos in reversed(range(max(0, frompos - MAX_CHAR_DISTANCE), frompos - 1)):
             yield word[:topos] + word[frompos] + word[topos:frompos] + word[frompos+1:]
 
 
-- 
2.43.0


From 47f271446d6ae8e04d6fea91e9b6a8aca3d1e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:52 +0000
Subject: [PATCH 23/42] fix: no wrap-around in the search for doubled letter
 pairs

The first step compared the second letter with the last one.
---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index 53dde25..cf694a2 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -204,7 +204,7 @@ def doubletwochars(word: str) -> Iterator[str]:
 
     # TODO: 1) for vacacation yields "vacation" twice, hunspell's algo kinda wiser
     # 2) maybe just use regexp?..
-    for i in range(2, len(word)):
+    for i in range(3, len(word)):
         if word[i-2] == word[i] and word[i-3] == word[i-1]:
             yield word[:i-1] + word[i+1:]
 
-- 
2.43.0


From b5191ae904dc5dd624ad7437132f86423bbf609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:53 +0000
Subject: [PATCH 24/42] fix: system dictionaries in folders with .aff in the
 name

All occurrences of the extension were removed from the path.
---
 spylls/hunspell/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/dictionary.py b/spylls/hunspell/dictionary.py
index 6e656f7..b440c0b 100644
--- a/spylls/hunspell/dictionary.py
+++ b/spylls/hunspell/dictionary.py
@@ -177,7 +177,7 @@ class Dictionary:
         for folder in cls.PATHES:
             pathes = glob.glob(f'{folder}/{name}.aff')
             if pathes:
-                return cls.from_files(pathes[0].replace('.aff', ''))
+                return cls.from_files(pathes[0][:-len('.aff')])
 
         raise LookupError(f'{name}.aff not found (search pathes are {cls.PATHES!r})')
 
-- 
2.43.0


From 956fe1080a3bf4887c4e0d65b1dfafc2000c77a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:54 +0000
Subject: [PATCH 25/42] fix: do not change the case of a suggestion to an
 incorrect one

Affixed forms of KEEPCASE stems and some letters without a one-letter
counterpart became words that lookup rejects.
---
 spylls/hunspell/algo/suggest.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index 8a7249e..a0fffc1 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -190,6 +190,10 @@ class Suggest:
         def is_forbidden(word):
             return self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD)
 
+        # Whether the text (or each word of it) is correct when written this way
+        def is_correct(text):
+            return self.lookup(text) or all(self.lookup(part) for part in text.replace('-', ' ').split())
+
         # This set will gather all good suggestions that were already returned (in order, for example,
         # to not return same suggestion twice)
         handled: Set[str] = set()
@@ -213,8 +217,9 @@ class Suggest:
                 # is "kitten" (how it is in the dictionary), and coercion (what we really want
                 # to return to user) is "Kitten"
                 text = self.aff.casing.coerce(text, captype)
-                # ...but if this particular capitalized form is forbidden, return back to original text
-                if text != suggestion.text and is_forbidden(text):
+                # ...but if this particular capitalized form is forbidden or not a correct word (for
+                # example, the stem has KEEPCASE flag), return back to original text
+                if text != suggestion.text and (is_forbidden(text) or not is_correct(text)):
                     text = suggestion.text
 
                 # "aNew" will suggest "a new", here we fix it back to "a New"
-- 
2.43.0


From 1dfa1f79e26e59a7303d5d37d7e9026f238857e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:13 +0000
Subject: [PATCH 26/42] fix: rule compounds respect FORBIDDENWORD and NOSUGGEST

Forbidden stems were accepted as parts of compounds built by COMPOUNDRULE,
and compounds with NOSUGGEST stems were suggested.
---
 spylls/hunspell/algo/lookup.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index ff3df61..564f3c5 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -828,7 +828,7 @@ class Lookup:
                            word_rest: str,
                            prev_parts: List[data.dic.Word] = [],
                            rules: Optional[List[data.aff.CompoundRule]] = None,
-                           allow_nosuggest: bool = True) -> Iterator[CompoundForm]:  # pylint: disable=unused-argument
+                           allow_nosuggest: bool = True) -> Iterator[CompoundForm]:
         """
         Different way of producing compound words: by rules, looking like ``A*BC?CD``, where A, B, C, D
         are flags the word might have, and ``*?`` have the same meaning as in regular expressions.
@@ -854,12 +854,15 @@ class Lookup:
             # We start with all known rules
             rules = self.aff.COMPOUNDRULE
 
-        # FIXME: ignores flags like FORBIDDENWORD and nosuggest
+        def homonyms(stem):
+            if aff.FORBIDDENWORD and self.dic.has_flag(stem, aff.FORBIDDENWORD):
+                return []
+            return [word for word in self.dic.homonyms(stem) if allow_nosuggest or aff.NOSUGGEST not in word.flags]
 
         # If it is middle of compounding process "the rest of the word is the whole last part" is always
         # possible
         if prev_parts:
-            for homonym in self.dic.homonyms(word_rest):
+            for homonym in homonyms(word_rest):
                 parts = [*prev_parts, homonym]
                 flag_sets = [w.flags for w in parts]
                 if any(r.fullmatch(flag_sets) for r in rules):
@@ -871,12 +874,13 @@ class Lookup:
 
         for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
             beg = word_rest[0:pos]
-            for homonym in self.dic.homonyms(beg):
+            for homonym in homonyms(beg):
                 parts = [*prev_parts, homonym]
                 flag_sets = [w.flags for w in parts]
                 compoundrules = [r for r in rules if r.partial_match(flag_sets)]
                 if compoundrules:
-                    for rest in self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts):
+                    for rest in self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts,
+                                                        allow_nosuggest=allow_nosuggest):
                         yield CompoundForm([AffixForm(beg, beg), *rest.parts])
 
     def is_bad_compound(self, compound: CompoundForm, captype: CapType) -> bool:
-- 
2.43.0


From ad867f5b01e463e1a1def93590f19385f79a6086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:08:12 +0000
Subject: [PATCH 27/42] fix: several spaces before the data of a dictionary
 line

All of them but the last stayed in the word or in its flags.
---
 spylls/hunspell/readers/dic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index dfbeb6a..7ea043e 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -51,7 +51,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
             tags_start = old_tags_start
 
         if tags_start:
-            word = line[:tags_start]
+            word = line[:tags_start].rstrip()
             # If tags were present, parse them
             data = parse_data(line[tags_start:], aff.AM)
         else:
-- 
2.43.0


From a531aaf33eb73aa81cc5263437e308ee0937bc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:26:38 +0000
Subject: [PATCH 28/42] fix: look up of words with many break points takes
 forever

All the possible breakings of the word were produced before looking at
their parts, so a line of 26 dashes or a long chain of hyphenated words
took minutes.  A breaking whose first part is already incorrect is now
not continued.
---
 spylls/hunspell/algo/lookup.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 564f3c5..8aae15c 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -229,14 +229,14 @@ class Lookup:
         # ``try_break`` recursively produces all possible lists of word breaking by break patterns
         # (like dashes). "The whole word" is yielded as a first alternative, so if the whole word is
         # correct, the loop will return early.
-        for parts in self.break_word(word):
+        for parts in self.break_word(word, is_part=is_correct):
             # If all parts in this variant of the breaking is correct, the whole word considered correct.
             if all(is_correct(part) for part in parts if part):
                 return True
 
         return False
 
-    def break_word(self, text, depth=0):
+    def break_word(self, text, depth=0, is_part=None):
         """
         Recursively produce all possible lists of word breaking by break patterns
         (like dashes). For example, if we are checking the word "pre-processed-meat", we'll
@@ -245,6 +245,8 @@ class Lookup:
         ["pre", "processed", "meat"]), because the dictionary might contain word "pre-processed"
         as a separate entity, so ["pre-processed", "meat"] would be considered correct, and the
         other two would not, if there is no separate entry on "pre".
+
+        If ``is_part`` is passed, breakings starting with something that isn't a correct part are not continued.
         """
         if depth > 10:
             return
@@ -254,7 +256,9 @@ class Lookup:
             for m in pat.regexp.finditer(text):
                 start = text[:m.start(1)]
                 rest = text[m.end(1):]
-                for breaking in self.break_word(rest, depth=depth+1):
+                if is_part and start and not is_part(start):
+                    continue
+                for breaking in self.break_word(rest, depth=depth+1, is_part=is_part):
                     yield [start, *breaking]
 
     def good_forms(self, word: str, *,
-- 
2.43.0


From 759416eee9877dd9e83c453809ad50f19aac73e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:26:39 +0000
Subject: [PATCH 29/42] fix: infinite recursion in MAP with one option inside
 another
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

With a MAP group like "oö(oo)" the replacement of "o" by "oo" was followed
by replacing the second "o" of it, and so on until RecursionError. The
search now continues after the replacement.
---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index cf694a2..fa5d7b3 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -70,7 +70,7 @@ def mapchars(word: str, maptable: List[Set[str]]) -> Iterator[str]:
                             continue
                         replaced = word[:pos] + other + word[pos+len(option):]
                         yield replaced
-                        for variant in mapchars_internal(replaced, pos + 1):
+                        for variant in mapchars_internal(replaced, pos + len(other)):
                             yield variant
 
     yield from mapchars_internal(word)
-- 
2.43.0


From dc990b71bca538200be5b7af761aadad62b98dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:27:05 +0000
Subject: [PATCH 30/42] fix: suggestions with MAP take forever for words with
 repeated letters
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The number of variants grows exponentially with the number of mapped
letters in the word: "aaaaaaaaaaaaaaaaaaaaaa" with MAP "aáàä" never ended
(Hunspell stops this search by a time limit). The number of variants tried
is now limited.
---
 spylls/hunspell/algo/permutations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index fa5d7b3..498cbe7 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -3,12 +3,14 @@ Note: names of methods in this module, if seem weird, are the same as in Hunspel
 to keep track of them.
 """
 
+from itertools import islice
 from typing import Iterator, Union, List, Set
 
 from spylls.hunspell.data import aff
 
 
 MAX_CHAR_DISTANCE = 4
+MAX_MAP_VARIANTS = 10_000
 
 
 def replchars(word: str, reptable: List[aff.RepPattern]) -> Iterator[Union[str, List[str]]]:
@@ -73,7 +75,7 @@ def mapchars(word: str, maptable: List[Set[str]]) -> Iterator[str]:
                         for variant in mapchars_internal(replaced, pos + len(other)):
                             yield variant
 
-    yield from mapchars_internal(word)
+    yield from islice(mapchars_internal(word), MAX_MAP_VARIANTS)
 
 
 def swapchar(word: str) -> Iterator[str]:
-- 
2.43.0


From 52b605aec6d4bed150339f372c34798ac229f122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:58 +0000
Subject: [PATCH 31/42] fix: do not capitalize the second word of a suggestion
 to an incorrect one

For a mixed-case misspelling like "abCd" the suggestion "ab cd" was changed
to "ab Cd" even when only "ab cd" is correct: listed as one entry, or with
"cd" marked KEEPCASE.
---
 spylls/hunspell/algo/suggest.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index a0fffc1..8c3a1d3 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -226,7 +226,9 @@ class Suggest:
                 if captype in [CapType.HUH, CapType.HUHINIT] and ' ' in text:
                     pos = text.find(' ')
                     if pos < len(word) and text[pos+1:pos+2] != word[pos] and text[pos+1:pos+2].upper() == word[pos]:
-                        text = text[:pos+1] + word[pos] + text[pos+2:]
+                        recapitalized = text[:pos+1] + word[pos] + text[pos+2:]
+                        if is_correct(recapitalized):
+                            text = recapitalized
 
             # If the word is forbidden, nothing more to do
             if is_forbidden(text):
-- 
2.43.0


From d6d9bde9890cb8975ba059d9a16309ded1221337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:48 +0000
Subject: [PATCH 32/42] fix: endless loop on PHONE rules consisting of
 look-ahead only

With a rule like "A- X" the matched part is empty, so the position in the
word never advanced and suggest never returned.
---
 spylls/hunspell/algo/phonet_suggest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/phonet_suggest.py b/spylls/hunspell/algo/phonet_suggest.py
index 77de4f6..f44d5ff 100644
--- a/spylls/hunspell/algo/phonet_suggest.py
+++ b/spylls/hunspell/algo/phonet_suggest.py
@@ -119,7 +119,7 @@ def metaphone(table: aff.PhonetTable, word: str) -> str:
             match = rule.match(word, pos)
             if match:
                 res += rule.replacement
-                pos += match.span()[1] - match.span()[0]
+                pos += max(match.span()[1] - match.span()[0], 1)
                 break
         if not match:
             pos += 1
-- 
2.43.0


From b079577991ef2006e6040de5229f3da984624e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:49:35 +0000
Subject: [PATCH 33/42] fix: read dictionaries in encodings known to Python by
 another name

Hunspell's names "microsoft-cp1251" (and other code pages) and "TIS620-2533"
are not known to Python, so loading such a dictionary raised LookupError.
---
 spylls/hunspell/readers/aff.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 6d9fc3d..5c45a9e 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -27,6 +27,12 @@ from spylls.hunspell.readers.file_reader import BaseReader
 # Outdated directive names
 SYNONYMS = {'PSEUDOROOT': 'NEEDAFFIX', 'COMPOUNDLAST': 'COMPOUNDEND'}
 
+# Encodings documented by Hunspell that have another name in Python
+ENCODINGS = {
+    **{f'microsoft-cp{number}': f'cp{number}' for number in range(1250, 1259)},
+    'tis620-2533': 'tis620',
+}
+
 FLAG_LONG_REGEXP = re.compile(r'..')
 FLAG_NUM_REGEXP = re.compile(r'\d+(?=,|$)')
 
@@ -121,8 +127,8 @@ def read_aff(source: BaseReader) -> Tuple[aff.Aff, Context]:
         elif directive == 'AF':
             context.flag_synonyms = value
         elif directive == 'SET':
-            context.encoding = value
-            source.reset_encoding(value)
+            context.encoding = ENCODINGS.get(value.lower(), value)
+            source.reset_encoding(context.encoding)
         elif directive == 'IGNORE':
             context.ignore = value
 
-- 
2.43.0


From 5525fd1439c5ed63a9e677f26c47eb7da09c3fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:49:54 +0000
Subject: [PATCH 34/42] fix: flags of directives are not AF aliases

With numeric flags and an AF table, a directive like "NEEDAFFIX 5" was read
as the first flag of the fifth alias (or failed with KeyError), while
Hunspell uses aliases only for flag sets of words and affixes.
---
 spylls/hunspell/readers/aff.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 5c45a9e..c3bf14e 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -63,7 +63,7 @@ class Context:
         """
         Parse singular flag, considering attr:`flag_format`.
         """
-        return list(self.parse_flags(string))[0]
+        return list(self.split_flags(string))[0]
 
     def parse_flags(self, string: str) -> Iterable[str]:
         """
@@ -76,6 +76,13 @@ class Context:
         if self.flag_synonyms and string.isdigit():
             return self.flag_synonyms[string]
 
+        return self.split_flags(string)
+
+    def split_flags(self, string: str) -> Iterable[str]:
+        """
+        Split flags considering :attr:`flag_format` only (not synonyms).
+        """
+
         # TODO: what if string format doesn't match expected (odd number of chars for long, etc.)?
         if self.flag_format == 'short':
             return string
-- 
2.43.0


From 9a564de53c5e5822a63297130c0c86d3c1f852a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:50:27 +0000
Subject: [PATCH 35/42] fix: "0" in CHECKCOMPOUNDPATTERN means unmodified stems

The documentation (of Hunspell and of CompoundPattern) says that "0" limits
the pattern to stems without affixes (or with zero-length ones), but the
condition was inverted: only parts with affixes matched.
---
 spylls/hunspell/data/aff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index d74e4c5..64f24ac 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -384,8 +384,8 @@ class CompoundPattern:
 
     def match(self, left, right):
         return (left.stem.endswith(self.left_stem)) and (right.stem.startswith(self.right_stem)) and \
-               (not self.left_no_affix or not left.is_base()) and \
-               (not self.right_no_affix or not right.is_base()) and \
+               (not self.left_no_affix or left.text == left.stem) and \
+               (not self.right_no_affix or right.text == right.stem) and \
                (not self.left_flag or self.left_flag in left.flags()) and \
                (not self.right_flag or self.right_flag in right.flags())
 
-- 
2.43.0


From 5408b6fe61e364fc06ab12150ae980c204494ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:07:17 +0000
Subject: [PATCH 36/42] fix: numbers in morphological data that are not AM
 aliases

A number inside the definition of an AM alias was expanded as an alias again,
which never ended when it was the number of the same alias, and a number
absent from the AM table raised KeyError. Such fields can hold anything, and
everything that is not a tag or an alias is dropped.
---
 spylls/hunspell/readers/dic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 7ea043e..ead8b41 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -161,7 +161,7 @@ def parse_data(text: str, aliases: Dict[str, List[str]]) -> Dict[str, List[str]]
             # (defined in .aff file list of data tags corresponding to some number)
             # So we just mutate the list of tags we are currently processing, so those fetched
             # by numeric alias would be handled.
-            parts.extend(aliases[tag_str])
+            parts.extend(tag for tag in aliases.get(tag_str, []) if not tag.isdigit())
         else:
             pass
 
-- 
2.43.0


From a72987f7681ab63f945f00d6acb7b435e5e5cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:09:16 +0000
Subject: [PATCH 37/42] fix: flags of dictionary lines with several slashes

The second argument of re.split is the number of splits (not of parts), so
a line with two unescaped slashes (the second one being a flag) was read as
a word without flags, and so was any line starting with a slash, even when it
has flags: "/usr/S" is the word "/usr" with the flag S.
---
 spylls/hunspell/readers/dic.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index ead8b41..edae8f6 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -14,7 +14,7 @@ from spylls.hunspell.algo.capitalization import Type as CapType
 
 COUNT_REGEXP = re.compile(r'^\d+(\s+|$)')   # should start with digits, but can have whatever further
 SPACES_REGEXP = re.compile(r"\s+")
-SLASH_REGEXP = re.compile(r'(?<!\\)/')
+SLASH_REGEXP = re.compile(r'(?<=[^\\])/')      # unescaped, and not at the very beginning
 TAG_REGEXP = re.compile(r'[ \t]\w{2}:')
 
 
@@ -62,14 +62,11 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
         #
         # * if the word STARTS with "/" -- it is not empty stem + flags, but "word starting with /";
         # * if the "/" should be in stem, it can be screened by "\/"
-        if word.startswith('/'):
-            flags = ''
+        word_with_flags = SLASH_REGEXP.split(word, 1)
+        if len(word_with_flags) == 2:
+            word, flags = word_with_flags
         else:
-            word_with_flags = SLASH_REGEXP.split(word, 2)
-            if len(word_with_flags) == 2:
-                word, flags = word_with_flags
-            else:
-                flags = ''
+            flags = ''
 
         if r'\/' in word:
             word = word.replace(r'\/', '/')
-- 
2.43.0


From 458f474fb45493da9b90d1f18284e7f405f0159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:43:33 +0000
Subject: [PATCH 38/42] fix: lookup of long ambiguous compounds took
 exponential time

The rest of a word that can't be split into parts was tried again for every
way to split the beginning of the word, so an incorrect word like "a" * 40 + "b"
with "a" and "aa" allowed in compounds was checked for hours. Remember the rests
already known to give nothing.
---
 spylls/hunspell/algo/lookup.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 8aae15c..e73b94c 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -27,7 +27,7 @@ To follow algorithm details, start reading from :meth:`Lookup.__call__`
 import re
 
 from enum import Enum
-from typing import List, Iterator, Union, Optional
+from typing import List, Iterator, Set, Tuple, Union, Optional
 
 import dataclasses
 from dataclasses import dataclass
@@ -746,7 +746,8 @@ class Lookup:
                            *,
                            captype: CapType,
                            depth: int = 0,
-                           allow_nosuggest: bool = True) -> Iterator[CompoundForm]:
+                           allow_nosuggest: bool = True,
+                           dead_ends: Optional[Set[Tuple[str, int]]] = None) -> Iterator[CompoundForm]:
         """
         Produces all possible compound forms such that every part is a valid affixed form, and all of
         those parts are allowed to be together by flags (e.g. first part either has generic flag
@@ -761,10 +762,19 @@ class Lookup:
             captype: word's capitalization type
             depth: current recursion depth (0 initially)
             allow_nosuggest: see :meth:`good_forms`
+            dead_ends: rests of the word (with depth) already known to be impossible to split
         """
 
         aff = self.aff
 
+        if dead_ends is None:
+            dead_ends = set()
+        elif (word_rest, depth) in dead_ends:
+            return
+
+        # Till something is found
+        dead_ends.add((word_rest, depth))
+
         # Flags that are forbidden for affixes (will be passed to affix_forms)
         forbidden_flags = [aff.COMPOUNDFORBIDFLAG] if aff.COMPOUNDFORBIDFLAG else []
         # Flags that are required for affixes. Are passed to affix_forms, expept for:
@@ -784,6 +794,7 @@ class Lookup:
                                          forbidden_flags=forbidden_flags,
                                          allow_nosuggest=allow_nosuggest):
                 # return it to the recursively calling method
+                dead_ends.discard((word_rest, depth))
                 yield CompoundForm([form])
 
         # Check compounding limitation (if the rest of the word is less than 2 allowed parts, or if
@@ -811,7 +822,8 @@ class Lookup:
                 # Recursively try to split the rest of the word ("the whole rest is compound end" also
                 # might be the result)
                 for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
-                                                       allow_nosuggest=allow_nosuggest):
+                                                       allow_nosuggest=allow_nosuggest, dead_ends=dead_ends):
+                    dead_ends.discard((word_rest, depth))
                     yield CompoundForm([form, *partial.parts])
 
             # Complication! If the affix has SIMPLIFIEDTRIPLE boolean setting, we must check the
@@ -825,7 +837,8 @@ class Lookup:
                                              forbidden_flags=forbidden_flags,
                                              allow_nosuggest=allow_nosuggest):
                     for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
-                                                           allow_nosuggest=allow_nosuggest):
+                                                           allow_nosuggest=allow_nosuggest, dead_ends=dead_ends):
+                        dead_ends.discard((word_rest, depth))
                         yield CompoundForm([form.replace(text=beg), *partial.parts])
 
     def compounds_by_rules(self,
-- 
2.43.0


From 9377fd6c904bd309be7b6c2fa7934fa54487047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:49:12 +0000
Subject: [PATCH 39/42] fix: signs in conditions and stripped parts of affixes

Only brackets, "^" in them and dots have a special meaning in conditions of
affixes, but conditions with "+", "*", "(" and similar were compiled as regular
expressions, failing to load or matching other words. A backslash in the
stripped part made lookup raise an exception.
---
 spylls/hunspell/algo/lookup.py |  4 ++--
 spylls/hunspell/data/aff.py    | 11 +++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index e73b94c..f5a883e 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -586,7 +586,7 @@ class Lookup:
             # stem is produced by removing the suffix, and, optionally, adding the part of the
             # stem (named ``strip``). For example, suffix might be declared as ``(strip=y, add=ier)``,
             # then to restore the original stem from word "prettier" we must remove "ier" and add back "y"
-            stem = suffix.replace_regexp.sub(suffix.strip, word)
+            stem = suffix.replace_regexp.sub(lambda _: suffix.strip, word)
             # Even with matching flags, the suffix's condition still might prohibit this form
             if not suffix.cond_regexp.search(stem):
                 continue
@@ -623,7 +623,7 @@ class Lookup:
         )
 
         for prefix in possible_prefixes:
-            stem = prefix.replace_regexp.sub(prefix.strip, word)
+            stem = prefix.replace_regexp.sub(lambda _: prefix.strip, word)
 
             if not prefix.cond_regexp.search(stem):
                 continue
diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 64f24ac..da67167 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -157,6 +157,13 @@ class RepPattern:
         self.regexp = re.compile(re.escape(self.pattern).replace('\\^', '^').replace('\\$', '$'))
 
 
+def condition_regexp(condition: str) -> str:
+    """
+    Only ``.``, ``[...]`` and ``[^...]`` have a special meaning in affix conditions.
+    """
+    return re.sub(r'[-+*?(){}|$\\]|(?<!\[)\^', r'\\\g<0>', condition)
+
+
 @dataclass
 class Affix:
     """
@@ -233,7 +240,7 @@ class Prefix(Affix):
 
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
-        self.cond_regexp = re.compile('^' + self.condition.replace('-', '\\-'))
+        self.cond_regexp = re.compile('^' + condition_regexp(self.condition))
         self.replace_regexp = re.compile('^' + re.escape(self.add))
 
     def __repr__(self):
@@ -252,7 +259,7 @@ class Suffix(Affix):
 
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
-        self.cond_regexp = re.compile(self.condition.replace('-', '\\-') + '$')
+        self.cond_regexp = re.compile(condition_regexp(self.condition) + '$')
         self.replace_regexp = re.compile(re.escape(self.add) + '$')
 
     def __repr__(self):
-- 
2.43.0


From 497ab9b8a5a967735862fc8c53b08738a6cb4613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:50:16 +0000
Subject: [PATCH 40/42] fix: lookup of words with many "SS" exhausted the
 memory

With CHECKSHARPS, all the combinations of "ss" and sharp s were produced for
upper-case words: a million of them for "SS" * 20. Only vary the first ten
(Hunspell limits it the same way, with MAXSHARPS).
---
 spylls/hunspell/algo/capitalization.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/capitalization.py b/spylls/hunspell/algo/capitalization.py
index e9bd77c..303247d 100644
--- a/spylls/hunspell/algo/capitalization.py
+++ b/spylls/hunspell/algo/capitalization.py
@@ -192,13 +192,15 @@ class GermanCasing(Casing):
         ['straße', 'strasse']
     """
 
+    MAX_SHARPS = 10
+
     def lower(self, word):
-        def sharp_s_variants(text, start=0):
+        def sharp_s_variants(text, start=0, depth=0):
             pos = text.find('ss', start)
-            if pos == -1:
+            if pos == -1 or depth == self.MAX_SHARPS:
                 return []
             replaced = text[:pos] + 'ß' + text[pos+2:]
-            return [replaced, *sharp_s_variants(replaced, pos+1), *sharp_s_variants(text, pos+1)]
+            return [replaced, *sharp_s_variants(replaced, pos+1, depth+1), *sharp_s_variants(text, pos+1, depth+1)]
 
         lowered = super().lower(word)
 
-- 
2.43.0


From c25518aba4c2c766a2528e8ef0f6ab022e7be0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:13:13 +0000
Subject: [PATCH 41/42] fix: take the .aff and .dic files of one dictionary
 from a zip

The first .aff and the first .dic file of the archive were read, so an archive with
hyphenation patterns (hyph_xx.dic) or with several dictionaries could give a mixed pair.
---
 spylls/hunspell/dictionary.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/dictionary.py b/spylls/hunspell/dictionary.py
index b440c0b..0b097dc 100644
--- a/spylls/hunspell/dictionary.py
+++ b/spylls/hunspell/dictionary.py
@@ -157,8 +157,11 @@ class Dictionary:
 
         file = zipfile.ZipFile(path)
         # TODO: fail if there are several
-        aff_path = [name for name in file.namelist() if name.endswith('.aff')][0]
-        dic_path = [name for name in file.namelist() if name.endswith('.dic')][0]
+        aff_pathes = [name for name in file.namelist() if name.endswith('.aff')]
+        dic_pathes = [name for name in file.namelist() if name.endswith('.dic')]
+        # There might be other ``*.dic`` files (like hyphenation patterns), so the pair of the same name is preferred
+        pairs = [(name, name[:-len('.aff')] + '.dic') for name in aff_pathes if name[:-len('.aff')] + '.dic' in dic_pathes]
+        aff_path, dic_path = pairs[0] if pairs else (aff_pathes[0], dic_pathes[0])
         aff, context = readers.read_aff(ZipReader(file.open(aff_path)))
         dic = readers.read_dic(ZipReader(file.open(dic_path), encoding=context.encoding), aff=aff, context=context)
 
-- 
2.43.0


From 3f483d63bafb9a2612868cbb2473cd6cd673cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:20:26 +0000
Subject: [PATCH 42/42] fix: apply casing rules and compound prohibitions to
 capitalized compounds when FORCEUCASE is set

The first part was looked up in lower case but kept its capital letter, so
CHECKCOMPOUND* rules, forbidden stems and two-word entries were bypassed, and
Turkic letters were lower-cased by the wrong rules.
---
 spylls/hunspell/algo/lookup.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index f5a883e..4636a6a 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -345,6 +345,12 @@ class Lookup:
                 # ...and then all possible compound forms
                 yield from self.compound_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest)
 
+        # If the word might be required by compound end to be capitalized, we should find it EVEN
+        # if the check is "without checking different capitalizations"
+        if compound_forms and not capitalization and self.aff.FORCEUCASE and captype == CapType.INIT:
+            for variant in self.aff.casing.lower(word):
+                yield from self.compound_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest)
+
     def affix_forms(self,
                     word: str,
                     captype: CapType,
@@ -419,15 +425,6 @@ class Lookup:
                     found = True
                     yield candidate
 
-            # If it then might be required by compound end to be capitalized, we should find it EVEN
-            # if the check is "without checking different capitalizations"
-            if compoundpos == CompoundPos.BEGIN and self.aff.FORCEUCASE and captype == CapType.INIT:
-                for homonym in self.dic.homonyms(form.stem.lower()):
-                    candidate = form.replace(in_dictionary=homonym)
-                    if is_good_form(candidate):
-                        found = True
-                        yield candidate
-
             if found or compoundpos or captype != CapType.ALL:
                 continue
 
-- 
2.43.0

