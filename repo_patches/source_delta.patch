From c626a6eec889a5520707b48c99e9aa0eda70e9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 01/10] fix: pass on failures that are not markup errors
 instead of retrying them

The parse loop caught every Exception, so a deadline raised by a signal
handler or a failed allocation inside the parser was answered by another
attempt and the conversion carried on as if nothing had happened.
---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index c41805a..70ec12d 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -1,5 +1,6 @@
 from typing import List
 from xml.dom.minidom import parseString, Element
+from xml.parsers.expat import ExpatError
 import re
 
 from ..el_to_tex.protocols import MathMLElement
@@ -43,7 +44,7 @@ class XmlToMathMLAdapter:
                 dom = parseString(self._xml)
                 elements = dom.getElementsByTagName("math")
                 return list(elements)
-            except Exception as e:
+            except ExpatError as e:
                 self._fix_error(e)
                 exception = e
 
-- 
2.43.0


From c60b0ed4df2dee5b572c3f4f3ab3a0fefde1e6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 02/10] fix: remove a damaged attribute from start tags only

The word at the position of a parse error was deleted wherever it occurred in
the document: in text, inside other words, in intact attributes and in markup
glued on behind the document, so that a repaired document lost content.
---
 .../xml_to_mathml/services/error_handler.py   | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 34c6b6c..fb9fb11 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -1,6 +1,13 @@
 from xml.parsers.expat import ExpatError
 import re
 
+# A start tag (group 1), or something that only looks as if it contained one
+_START_TAG = re.compile(
+    r"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>"
+    r"|(<[^\s<>!?/\"']+(?:[^<>\"']|\"[^\"<]*\"|'[^'<]*')*>)",
+    re.DOTALL,
+)
+
 
 class ErrorHandler:
     def __init__(self):
@@ -36,18 +43,29 @@ class ErrorHandler:
         goal_line = xml.split("\n")[error_line - 1]
         word = self._get_word_at_str_pos(goal_line, error_offset)
 
+        if not re.fullmatch(r"[\w:.-]+(=[^\s\"'<>/]*)?", word):
+            return xml
+
         pattern = self._match_missing_value_for_attribute(word)
-        return re.sub(pattern, "", xml)
+        return self._remove_from_start_tags(pattern, xml)
+
+    def _remove_from_start_tags(self, pattern: re.Pattern, xml: str) -> str:
+        """
+        Removes what the pattern matches from start tags, outside quoted values.
+        Text, comments, CDATA sections and intact attributes are left alone.
+        """
+        quoted_or_match = re.compile(rf"(\"[^\"]*\"|'[^']*')|(?:{pattern.pattern})")
+        return _START_TAG.sub(
+            lambda tag: quoted_or_match.sub(r"\1", tag[0]) if tag[1] else tag[0], xml
+        )
 
     def _match_missing_value_for_attribute(self, attribute: str) -> re.Pattern:
         """
         Constructs a regex pattern to find the specified attribute
         without a value (i.e., attribute= not followed by " or ').
         """
-        escaped_attribute = re.escape(attribute)
-        regex_pattern = (
-            rf'({escaped_attribute}=(?!(["\'])))|({escaped_attribute}(?!(["\'])))'
-        )
+        escaped_attribute = re.escape(attribute.rstrip("="))
+        regex_pattern = rf'(?<=\s){escaped_attribute}=?(?=[\s/>])(?!\s*["\'=])'
         return re.compile(regex_pattern, re.MULTILINE)
 
     def _math_generic_missing_value(self) -> re.Pattern:
-- 
2.43.0


From fbc12310a358642ed5355d168056544e301669c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 03/10] fix: drop only the attributes without a value in the
 generic repair

The replacement kept the text before the last space of a line and a quote
group that is always empty, so everything behind it was thrown away: the rest
of the document, or a second document glued on behind the first.
---
 .../xml_to_mathml/services/error_handler.py       | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index fb9fb11..7c94702 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -25,12 +25,7 @@ class ErrorHandler:
             return result
 
         pattern = self._math_generic_missing_value()
-        counter = 0
-        while re.search(pattern, xml) and counter < 5:
-            counter += 1
-            # Replace the matched pattern by removing the missing attribute value
-            result = re.sub(pattern, r"\1\3", xml)
-        return result
+        return self._remove_from_start_tags(pattern, xml)
 
     def _fix_missing_attribute_value(self, error: ExpatError, xml: str):
         error_code = error.code
@@ -71,13 +66,9 @@ class ErrorHandler:
     def _math_generic_missing_value(self) -> re.Pattern:
         """
         Constructs a generic regex pattern to find any attribute
-        without a value within a math element.
+        without a value (i.e., attribute= not followed by " or ').
         """
-        # This pattern matches:
-        # Group 1: <... (anything up to a space)
-        # Group 2: attribute= not followed by " or '
-        # Group 3: ...> (anything up to >)
-        return re.compile(r'(<.* )(\w+=(?!(["\'])))?(.*>)', re.MULTILINE)
+        return re.compile(r'(?<=\s)[\w:.-]+=(?=[\s/>])(?!\s*["\'=])', re.MULTILINE)
 
     def _get_word_at_str_pos(self, string: str, pos: int) -> str:
         """
-- 
2.43.0


From 8dcb12dabb73ecfd536c46e6c972d98617713999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 04/10] fix: treat line breaks as white space instead of
 joining the lines

A start tag broken between its name and its attributes became one word.
---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index 70ec12d..0ad5016 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -28,8 +28,8 @@ class XmlToMathMLAdapter:
         self._xml = self._error_handler.fix_error(self._xml, error)
 
     def _remove_line_breaks(self, xml: str) -> str:
-        line_break_pattern = re.compile(r"\n|\r\n|\r")
-        return line_break_pattern.sub("", xml)
+        line_break_pattern = re.compile(r"\r\n|\n|\r")
+        return line_break_pattern.sub(" ", xml).lstrip()
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
         ms_word_prefix_pattern = re.compile(r"mml:")
-- 
2.43.0


From daeae2163e97b65723410bd855017c17d492037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 05/10] fix: match start tags in linear time

The name and the rest of a start tag overlapped, so that long unclosed tags took quadratic time.
---
 src/mathml_to_latex/xml_to_mathml/services/error_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 7c94702..618ecd1 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -4,7 +4,7 @@ import re
 # A start tag (group 1), or something that only looks as if it contained one
 _START_TAG = re.compile(
     r"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>"
-    r"|(<[^\s<>!?/\"']+(?:[^<>\"']|\"[^\"<]*\"|'[^'<]*')*>)",
+    r"|(<[^\s<>!?/\"'](?:[^<>\"']|\"[^\"<]*\"|'[^'<]*')*>)",
     re.DOTALL,
 )
 
-- 
2.43.0


From e813959c5eff45ca21abca8c77452a4b58b918de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 06/10] fix: skip unterminated comments and instructions in
 linear time

---
 src/mathml_to_latex/xml_to_mathml/services/error_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 618ecd1..1b9389d 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -3,7 +3,7 @@ import re
 
 # A start tag (group 1), or something that only looks as if it contained one
 _START_TAG = re.compile(
-    r"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>"
+    r"<!--.*?(?:-->|\Z)|<!\[CDATA\[.*?(?:\]\]>|\Z)|<\?.*?(?:\?>|\Z)"
     r"|(<[^\s<>!?/\"'](?:[^<>\"']|\"[^\"<]*\"|'[^'<]*')*>)",
     re.DOTALL,
 )
-- 
2.43.0


From a3aedc080c7820b830315ae9a90c04db7cdab019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 07/10] fix: accept tabs around a damaged attribute

---
 src/mathml_to_latex/xml_to_mathml/services/error_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 1b9389d..b5dec1a 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -76,8 +76,8 @@ class ErrorHandler:
         """
         start = pos
         end = pos
-        while start > 0 and string[start - 1] != " ":
+        while start > 0 and string[start - 1] not in " \t":
             start -= 1
-        while end < len(string) and string[end] != " " and string[end] != ">":
+        while end < len(string) and string[end] not in " \t>":
             end += 1
         return string[start:end]
-- 
2.43.0


From 2e9e9e1277c4bd23675568663474f0286eabf52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 08/10] fix: treat tabs as white space instead of joining the
 words around them

---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index 0ad5016..94a948c 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -28,7 +28,7 @@ class XmlToMathMLAdapter:
         self._xml = self._error_handler.fix_error(self._xml, error)
 
     def _remove_line_breaks(self, xml: str) -> str:
-        line_break_pattern = re.compile(r"\r\n|\n|\r")
+        line_break_pattern = re.compile(r"\r\n|\n|\r|\t")
         return line_break_pattern.sub(" ", xml).lstrip()
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
-- 
2.43.0


From e8f4a28f209646a1b588b95946358ce8ff15c8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 09/10] fix: merge the characters of a text in linear time

---
 src/mathml_to_latex/el_to_tex/usecases.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 60a67b4..d398e5c 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -657,24 +657,12 @@ class MText(ToLaTeXConverter):
         attributes = self._math_element.attributes
         value = self._math_element.value
 
-        chars = [
-            (
-                Char(char, True)
-                if re.match(r"^[a-zA-Z0-9]$", char) or char == " "
-                else Char(char, False)
-            )
-            for char in value
+        # Runs of alphanumeric characters and blanks, and all others one by one
+        merged_chars = [
+            Char(run, bool(re.match(r"[a-zA-Z0-9 ]", run)))
+            for run in re.findall(r"[a-zA-Z0-9 ]+|[^a-zA-Z0-9 ]", value)
         ]
 
-        merged_chars = []
-        for char in chars:
-            if char.is_alphanumeric:
-                last_char = merged_chars[-1] if merged_chars else None
-                if last_char and last_char.is_alphanumeric:
-                    last_char.value += char.value
-                    continue
-            merged_chars.append(char)
-
         return "".join(
             [
                 (
-- 
2.43.0


From 280ba7e7d8d3a0bda7f0ef00dc4b2a94561cf4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 10/10] fix: copy and unpickle InvalidNumberOfChildrenError

Copying or unpickling the error called its constructor with the message alone
and failed with a TypeError, so that one such document broke a process pool.
---
 src/mathml_to_latex/el_to_tex/protocols.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mathml_to_latex/el_to_tex/protocols.py b/src/mathml_to_latex/el_to_tex/protocols.py
index 9f0cc1b..97cbdc2 100644
--- a/src/mathml_to_latex/el_to_tex/protocols.py
+++ b/src/mathml_to_latex/el_to_tex/protocols.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+import copyreg
 
 
 class MathMLElement(ABC):
@@ -104,3 +105,7 @@ class InvalidNumberOfChildrenError(Exception):
             f"{tag_name} tag must have {comparison} {expected_number_of_child} children. It's actually {current_number_of_child}"
         )
         self.name = "InvalidNumberOfChildrenError"
+
+    def __reduce__(self):
+        # a copy has the message already: it is not made by __init__ once more
+        return copyreg.__newobj__, (type(self), *self.args), self.__dict__
-- 
2.43.0

