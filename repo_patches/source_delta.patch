From cc7b68d581af63cc15e498a3b867e4bff7f89da1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 01/16] fix: reject a non-toggle maction without children
 instead of an IndexError

---
 src/mathml_to_latex/el_to_tex/usecases.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 60a67b4..1567354 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -508,6 +508,11 @@ class MAction(ToLaTeXConverter):
                 ]
             )
 
+        if len(children) < 1:
+            raise InvalidNumberOfChildrenError(
+                self._math_element.name, 1, len(children), "at least"
+            )
+
         return self._adapter.to_latex_converter(children[0]).convert()
 
     def _is_toggle(self) -> bool:
-- 
2.43.0


From 587dd1c883af588531c3fab192751cf619780a58 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 02/16] fix: read all character data of a token element and
 ignore comments

---
 .../services/xml_elements_to_mathml_element.py        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py b/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
index b861b9b..36bf488 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
@@ -20,9 +20,7 @@ class ElementsToMathMLAdapter:
     def _convert_element(self, el: DOMElement) -> MathMLElement:
         attributes = self._convert_element_attributes(el.attributes)
         has_children = self._has_element_child(el)
-        value = (
-            "" if has_children else (el.firstChild.nodeValue if el.firstChild else "")
-        )
+        value = "" if has_children else self._get_text(el)
 
         children = (
             self.convert(
@@ -51,6 +49,13 @@ class ElementsToMathMLAdapter:
             attr_dict[attr.name] = attr_value
         return attr_dict
 
+    def _get_text(self, el: DOMElement) -> str:
+        return "".join(
+            child.nodeValue
+            for child in el.childNodes
+            if child.nodeType in (Node.TEXT_NODE, Node.CDATA_SECTION_NODE)
+        )
+
     def _has_element_child(self, el: DOMElement) -> bool:
         return any(child.nodeType == Node.ELEMENT_NODE for child in el.childNodes)
 
-- 
2.43.0


From 75288993f994c3fdc1ba46486d398e9835296e1a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 03/16] fix: keep a space where a line break separated words or
 attributes

---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index c41805a..0f34284 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -28,7 +28,7 @@ class XmlToMathMLAdapter:
 
     def _remove_line_breaks(self, xml: str) -> str:
         line_break_pattern = re.compile(r"\n|\r\n|\r")
-        return line_break_pattern.sub("", xml)
+        return line_break_pattern.sub(" ", xml)
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
         ms_word_prefix_pattern = re.compile(r"mml:")
-- 
2.43.0


From 7809dd9102220965eae32ef4b5143b53b50d4757 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 04/16] fix: write a fraction bevelled only for bevelled="true"

---
 src/mathml_to_latex/el_to_tex/usecases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 1567354..6ef2fa1 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -470,7 +470,7 @@ class MFrac(ToLaTeXConverter):
         return self._parenthesis_wrapper.wrap_if_more_than_one_char(val)
 
     def _is_bevelled(self) -> bool:
-        return bool(self._math_element.attributes.get("bevelled"))
+        return self._math_element.attributes.get("bevelled") == "true"
 
 
 class MRoot(ToLaTeXConverter):
-- 
2.43.0


From 1bfe8b06cd0c8653b9242f868d7f0afb4a30263f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 05/16] fix: keep the base letter of e with inverted breve

---
 src/mathml_to_latex/syntax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index a8e8050..38e56b4 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -73,7 +73,7 @@ vowels_with_accents: Dict[str, AccentChar] = {
     'ë': AccentChar(char='e', accent='¨'),
     'ę': AccentChar(char='e', accent='˙'),
     'ě': AccentChar(char='e', accent='ˇ'),
-    'ȇ': AccentChar(char='i', accent='^'),
+    'ȇ': AccentChar(char='e', accent='^'),
     'ё': AccentChar(char='e', accent='¨'),
     'ē': AccentChar(char='e', accent='-'),
     'í': AccentChar(char='i', accent='´'),
-- 
2.43.0


From 62fb660f10e11152df41cb3678f498ef8142c46d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 06/16] fix: repair only the valueless attributes of start
 tags, not text or other tags

---
 .../xml_to_mathml/services/error_handler.py   | 78 +++++++------------
 1 file changed, 27 insertions(+), 51 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 34c6b6c..c69ee85 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -10,65 +10,41 @@ class ErrorHandler:
         if not isinstance(error, ExpatError):
             return xml
 
-        return self._fix_missing_attribute(error, xml)
+        return self._fix_missing_attribute(xml)
 
-    def _fix_missing_attribute(self, error: ExpatError, xml: str) -> str:
-        result = self._fix_missing_attribute_value(error, xml)
-        if result != xml:
-            return result
-
-        pattern = self._math_generic_missing_value()
-        counter = 0
-        while re.search(pattern, xml) and counter < 5:
-            counter += 1
-            # Replace the matched pattern by removing the missing attribute value
-            result = re.sub(pattern, r"\1\3", xml)
-        return result
-
-    def _fix_missing_attribute_value(self, error: ExpatError, xml: str):
-        error_code = error.code
-        if error_code != 4:
-            return xml
-
-        error_line = error.lineno
-        error_offset = error.offset
+    def _fix_missing_attribute(self, xml: str) -> str:
+        """
+        Removes the attributes without a quoted value from every start tag.
+        Comments, CDATA sections, text and quoted attributes are left alone.
+        """
+        return self._match_markup().sub(self._fix_tag, xml)
 
-        goal_line = xml.split("\n")[error_line - 1]
-        word = self._get_word_at_str_pos(goal_line, error_offset)
+    def _fix_tag(self, markup: re.Match) -> str:
+        tag = markup.group("tag")
+        if not tag:
+            return markup.group()
 
-        pattern = self._match_missing_value_for_attribute(word)
-        return re.sub(pattern, "", xml)
+        return self._match_attribute().sub(r"\1", tag)
 
-    def _match_missing_value_for_attribute(self, attribute: str) -> re.Pattern:
+    def _match_markup(self) -> re.Pattern:
         """
-        Constructs a regex pattern to find the specified attribute
-        without a value (i.e., attribute= not followed by " or ').
+        Constructs a regex pattern to find comments, CDATA sections,
+        processing instructions and, as the group "tag", start tags.
         """
-        escaped_attribute = re.escape(attribute)
-        regex_pattern = (
-            rf'({escaped_attribute}=(?!(["\'])))|({escaped_attribute}(?!(["\'])))'
+        return re.compile(
+            r"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>"
+            r"|(?P<tag><[^\s<>\"'=/!?](?:\"[^\"<]*\"|'[^'<]*'|[^<>\"'])*>)",
+            re.DOTALL,
         )
-        return re.compile(regex_pattern, re.MULTILINE)
 
-    def _math_generic_missing_value(self) -> re.Pattern:
+    def _match_attribute(self) -> re.Pattern:
         """
-        Constructs a generic regex pattern to find any attribute
-        without a value within a math element.
+        Constructs a regex pattern to find the attributes of a start tag.
         """
         # This pattern matches:
-        # Group 1: <... (anything up to a space)
-        # Group 2: attribute= not followed by " or '
-        # Group 3: ...> (anything up to >)
-        return re.compile(r'(<.* )(\w+=(?!(["\'])))?(.*>)', re.MULTILINE)
-
-    def _get_word_at_str_pos(self, string: str, pos: int) -> str:
-        """
-        Returns the word at the specified position in the string.
-        """
-        start = pos
-        end = pos
-        while start > 0 and string[start - 1] != " ":
-            start -= 1
-        while end < len(string) and string[end] != " " and string[end] != ">":
-            end += 1
-        return string[start:end]
+        # Group 1: an attribute with a quoted value, which has to be kept
+        # No group: an attribute without value, or whose value isn't quoted
+        return re.compile(
+            r"(\s[^\s=<>\"'/]+\s*=\s*(?:\"[^\"]*\"|'[^']*'))"
+            r"|\s[^\s=<>\"'/]+(?:\s*=\s*[^\s\"'<>]*?)?(?=\s|/?>)"
+        )
-- 
2.43.0


From 7a16033d565b16a5ea7361f8eef085b6a5dbb19e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 07/16] fix: separate the formulas of a document by a space

---
 src/mathml_to_latex/converter.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mathml_to_latex/converter.py b/src/mathml_to_latex/converter.py
index 348a2bf..430dfe8 100644
--- a/src/mathml_to_latex/converter.py
+++ b/src/mathml_to_latex/converter.py
@@ -10,9 +10,8 @@ class MathMLToLaTeX:
             MathMLElementToLatexConverterAdapter().to_latex_converter(mathml_element)
             for mathml_element in mathml_elements
         ]
-        return "".join(
-            [
-                to_latex_converters.convert()
-                for to_latex_converters in mathml_elements_to_latex_converters
-            ]
-        ).strip()
+        latex_formulas = [
+            to_latex_converters.convert()
+            for to_latex_converters in mathml_elements_to_latex_converters
+        ]
+        return " ".join(filter(None, latex_formulas)).strip()
-- 
2.43.0


From 39f4463b5e01c3edfc2ff77fc8c25325ab567ed2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:23:02 +0000
Subject: [PATCH 08/16] fix: render a nested formula only as part of the outer
 one

---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index 0f34284..6959248 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -42,10 +42,18 @@ class XmlToMathMLAdapter:
             try:
                 dom = parseString(self._xml)
                 elements = dom.getElementsByTagName("math")
-                return list(elements)
+                return [el for el in elements if not self._is_inside_math(el)]
             except Exception as e:
                 self._fix_error(e)
                 exception = e
 
         if exception:
             raise exception
+
+    def _is_inside_math(self, element: Element) -> bool:
+        parent = element.parentNode
+        while parent is not None:
+            if parent.nodeName == "math":
+                return True
+            parent = parent.parentNode
+        return False
-- 
2.43.0


From 9dbea82eb797f59bf37538e6965ddf0b6749fbed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 09/16] fix: escape the braces in the delimiters written for {
 and } operators

---
 src/mathml_to_latex/syntax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 38e56b4..42c5f16 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -2060,8 +2060,8 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2309;': '\\rceil',
     '&#x2308;': '\\lceil',
     '&#x2016;': '\\parallel',
-    '}': '\\left.\\right}',
-    '{': '\\left{\\right.',
+    '}': '\\left.\\right\\}',
+    '{': '\\left\\{\\right.',
     ']': '\\left]\\right.',
     '[': '\\left[\\right.',
     ')': '\\left.\\right)',
@@ -3179,8 +3179,8 @@ all_math_operators_by_glyph = {
   '⌉': '\\rceil',
   '⌈': '\\lceil',
   '‖': '\\parallel',
-  '}': '\\left.\\right}',
-  '{': '\\left{\\right.',
+  '}': '\\left.\\right\\}',
+  '{': '\\left\\{\\right.',
   ']': '\\left]\\right.',
   '[': '\\left[\\right.',
   ')': '\\left.\\right)',
-- 
2.43.0


From 1a97b300323004f2544f46213b8e35a8034d5bd9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 10/16] =?UTF-8?q?fix:=20write=20=E2=8A=97,=20=E2=8A=95=20a?=
 =?UTF-8?q?nd=20=E2=88=98=20in=20identifiers=20as=20what=20they=20are?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/mathml_to_latex/syntax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 42c5f16..4dc9ee0 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -567,9 +567,9 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     '∏': r'\prod',
     '∑': r'\sum',
     '⊙': r'\bigodot',
-    '⊗': r'\bigoplus',
-    '⊕': 'o+',
-    '∘': '@',
+    '⊗': r'\bigotimes',
+    '⊕': r'\oplus',
+    '∘': r'\circ',
     '⋈': r'\bowtie',
     '⋊': r'\rtimes',
     '⋉': r'\ltimes',
-- 
2.43.0


From b102feb8114514396d029ec622ec1f5f24c13ce9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:23:33 +0000
Subject: [PATCH 11/16] fix: keep superscript digits superscript in operators

---
 src/mathml_to_latex/syntax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 4dc9ee0..b4a5e81 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -2142,11 +2142,11 @@ all_math_operators_by_glyph = {
   'ˇ': '',
   'ˆ': '\\hat',
   'º': 'o',
-  '¹': '1',
+  '¹': '^{1}',
   '¸': ',',
   '´': '´',
-  '³': '3',
-  '²': '2',
+  '³': '^{3}',
+  '²': '^{2}',
   '°': '\\circ',
   '¯': '\\bar',
   'ª': 'a',
-- 
2.43.0


From 13a6f29e3d55250f5903497a2ec14d145a35c76c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 12/16] fix: bold Greek capitals render with their own letter

---
 src/mathml_to_latex/syntax.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index b4a5e81..4e2ed9d 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -419,24 +419,24 @@ special_font_chars: Dict[str, SpecialFontChar] = {
     '𝚪': SpecialFontChar(letter='\\Gamma', font_cmd='mathtt'),
     '𝚫': SpecialFontChar(letter='\\Delta', font_cmd='mathtt'),
     '𝚬': SpecialFontChar(letter='E', font_cmd='mathtt'),
-    '𝚭': SpecialFontChar(letter='F', font_cmd='mathtt'),
-    '𝚮': SpecialFontChar(letter='G', font_cmd='mathtt'),
+    '𝚭': SpecialFontChar(letter='Z', font_cmd='mathtt'),
+    '𝚮': SpecialFontChar(letter='H', font_cmd='mathtt'),
     '𝚯': SpecialFontChar(letter='\\Theta', font_cmd='mathtt'),
     '𝚰': SpecialFontChar(letter='I', font_cmd='mathtt'),
-    '𝚱': SpecialFontChar(letter='J', font_cmd='mathtt'),
+    '𝚱': SpecialFontChar(letter='K', font_cmd='mathtt'),
     '𝚲': SpecialFontChar(letter='\\Lambda', font_cmd='mathtt'),
-    '𝚳': SpecialFontChar(letter='L', font_cmd='mathtt'),
-    '𝚴': SpecialFontChar(letter='M', font_cmd='mathtt'),
-    '𝚵': SpecialFontChar(letter='\\Pi', font_cmd='mathtt'),
+    '𝚳': SpecialFontChar(letter='M', font_cmd='mathtt'),
+    '𝚴': SpecialFontChar(letter='N', font_cmd='mathtt'),
+    '𝚵': SpecialFontChar(letter='\\Xi', font_cmd='mathtt'),
     '𝚶': SpecialFontChar(letter='O', font_cmd='mathtt'),
     '𝚷': SpecialFontChar(letter='\\Pi', font_cmd='mathtt'),
-    '𝚸': SpecialFontChar(letter='Q', font_cmd='mathtt'),
-    '𝚹': SpecialFontChar(letter='R', font_cmd='mathtt'),
-    '𝚺': SpecialFontChar(letter='S', font_cmd='mathtt'),
+    '𝚸': SpecialFontChar(letter='P', font_cmd='mathtt'),
+    '𝚹': SpecialFontChar(letter='\\Theta', font_cmd='mathtt'),
+    '𝚺': SpecialFontChar(letter='\\Sigma', font_cmd='mathtt'),
     '𝚻': SpecialFontChar(letter='T', font_cmd='mathtt'),
-    '𝚼': SpecialFontChar(letter='U', font_cmd='mathtt'),
+    '𝚼': SpecialFontChar(letter='\\Upsilon', font_cmd='mathtt'),
     '𝚽': SpecialFontChar(letter='\\Phi', font_cmd='mathtt'),
-    '𝚾': SpecialFontChar(letter='W', font_cmd='mathtt'),
+    '𝚾': SpecialFontChar(letter='X', font_cmd='mathtt'),
     '𝚿': SpecialFontChar(letter='\\Psi', font_cmd='mathtt'),
     '𝛀': SpecialFontChar(letter='\\Omega', font_cmd='mathtt'),
 }
-- 
2.43.0


From 5c61c09a1a445b212ecc35d5de8ee32c6d0bc6c9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:29:02 +0000
Subject: [PATCH 13/16] fix: bracket operators no longer switch math mode

---
 src/mathml_to_latex/syntax.py | 44 +++++++++++++++++------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 4e2ed9d..8af437a 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -2018,26 +2018,26 @@ all_math_operators_by_char: Dict[str, str] = {
     ';': ';',
     '&#x29FD;': '\\}',
     '&#x29FC;': '\\{',
-    '&#x2998;': '\\]',
-    '&#x2997;': '\\[',
+    '&#x2998;': ']',
+    '&#x2997;': '[',
     '&#x2996;': '\\ll',
     '&#x2995;': '\\gg',
     '&#x2994;': '\\gg',
     '&#x2993;': '\\ll',
     '&#x2992;': '\\gg',
     '&#x2991;': '\\ll',
-    '&#x2990;': '\\]',
-    '&#x298F;': '\\]',
-    '&#x298E;': '\\]',
-    '&#x298D;': '\\[',
-    '&#x298C;': '\\[',
-    '&#x298B;': '\\]',
+    '&#x2990;': ']',
+    '&#x298F;': '[',
+    '&#x298E;': ']',
+    '&#x298D;': '[',
+    '&#x298C;': ']',
+    '&#x298B;': '[',
     '&#x298A;': '\\triangleright',
     '&#x2989;': '\\triangleleft',
-    '&#x2988;': '|\\)',
-    '&#x2987;': '\\(|',
-    '&#x2986;': '|\\)',
-    '&#x2985;': '\\(\\(',
+    '&#x2988;': '|)',
+    '&#x2987;': '(|',
+    '&#x2986;': '))',
+    '&#x2985;': '((',
     '&#x2984;': '|\\}',
     '&#x2983;': '\\{|',
     '&#x2980;': '\\||',
@@ -3139,26 +3139,26 @@ all_math_operators_by_glyph = {
   ';': ';',
   '⧽': '\\}',
   '⧼': '\\{',
-  '⦘': '\\]',
-  '⦗': '\\[',
+  '⦘': ']',
+  '⦗': '[',
   '⦖': '\\ll',
   '⦕': '\\gg',
   '⦔': '\\gg',
   '⦓': '\\ll',
   '⦒': '\\gg',
   '⦑': '\\ll',
-  '⦐': '\\]',
-  '⦏': '\\]',
-  '⦎': '\\]',
-  '⦍': '\\[',
-  '⦌': '\\[',
-  '⦋': '\\]',
+  '⦐': ']',
+  '⦏': '[',
+  '⦎': ']',
+  '⦍': '[',
+  '⦌': ']',
+  '⦋': '[',
   '⦊': '\\triangleright',
   '⦉': '\\triangleleft',
   '⦈': '|\\)',
   '⦇': '\\(|',
-  '⦆': '|\\)',
-  '⦅': '\\(\\(',
+  '⦆': '))',
+  '⦅': '((',
   '⦄': '|\\}',
   '⦃': '\\{|',
   '⦀': '\\||',
-- 
2.43.0


From a95e67be78de22700c28f4b56a11c105cbf77fea Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 14/16] fix: symbols keep their operator in every token element

---
 src/mathml_to_latex/syntax.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 8af437a..b3f9ead 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -446,7 +446,7 @@ all_math_symbols_by_char: Dict[str, str] = {
     '&#x2203;': '\\exists',
     '&#x2200;': '\\forall',
     '&#x21D4;': '\\iff',
-    '&#x21D2;': '=>',
+    '&#x21D2;': '\\Rightarrow',
     '&#xAC;': '\\neg',
     '&#x2124;': '\\mathbb{Z}',
     '&#x211D;': '\\mathbb{R}',
@@ -480,9 +480,9 @@ all_math_symbols_by_char: Dict[str, str] = {
     '&#x220F;': '\\prod',
     '&#x2211;': '\\sum',
     '&#x2299;': '\\bigodot',
-    '&#x2297;': '\\bigoplus',
-    '&#x2295;': 'o+',
-    '&#x2218;': '@',
+    '&#x2297;': '\\bigotimes',
+    '&#x2295;': '\\oplus',
+    '&#x2218;': '\\circ',
     '&#x22C8;': '\\bowtie',
     '&#x22CA;': '\\rtimes',
     '&#x22C9;': '\\ltimes',
@@ -733,7 +733,7 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     '⎜': r'\mid',
     'ħ': r'\hbar',
     'ፈ': ' ',
-    '⦨': r'\llbracket',
+    '⦨': r'\measuredangle',
     'ế': r'\hat{e}',
     '¢': r'\cent',
     '⤹': r'\downarrow',
@@ -834,7 +834,7 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     '▱': r'\square',
     '∆': r'\Delta',
     'ἱ': 'i',
-    '∡': r'\angle',
+    '∡': r'\measuredangle',
     'ϒ': r'\Upsilon',
     '↓': r'\downarrow',
     '↑': r'\uparrow',
@@ -851,7 +851,7 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     'ѳ': r'\theta',
     '⦢': r'\measuredangle',
     '¸': ',',
-    '⎻': r'\overline',
+    '⎻': '-',
     '⟦': r'\llbracket',
     '𝜙': r'\phi',
     'П': r'\prod',
@@ -2966,7 +2966,7 @@ all_math_operators_by_glyph = {
   '∘': '\\circ',
   '∗': '*',
   '∕': '/',
-  '∎': '\\square',
+  '∎': '\\blacksquare',
   '∍': '\\ni',
   '∊': '\\in',
   '∆': '\\Delta',
-- 
2.43.0


From 565e7faf6efa5802e8864b4d847f9ef0b718e466 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:29:45 +0000
Subject: [PATCH 15/16] fix: letters that have no symbol are not dropped

---
 src/mathml_to_latex/syntax.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index b3f9ead..3fb2878 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -636,10 +636,7 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     "↛'": r'\nrightarrow',
     '†': r'\dagger',
     'เ': r'\prime',
-    '白': ' ',
-    '⿱': ' ',
     'ℸ': r'\wp',
-    '픀': ' ',
     'ⁿ': r'^{n}',
     '✔': r'\checkmark',
     '✗': r'\times',
-- 
2.43.0


From 290ad77219c6d55c179be14a1ea16f1a3360cddf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:10:57 +0000
Subject: [PATCH 16/16] fix: an innerTable attribute of the document no longer
 nests a table

---
 src/mathml_to_latex/el_to_tex/usecases.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 6ef2fa1..bf0708a 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -388,11 +388,11 @@ class MTable(ToLaTeXConverter):
     def _add_flag_recursive_if_name(self, mathml_elements, name, flag):
         for mathml_element in mathml_elements:
             if mathml_element.name == name:
-                mathml_element.attributes[flag] = flag
+                mathml_element.attributes[flag] = True
             self._add_flag_recursive_if_name(mathml_element.children, name, flag)
 
     def _has_flag(self, flag: str) -> bool:
-        return bool(self._math_element.attributes.get(flag))
+        return self._math_element.attributes.get(flag) is True
 
 
 class MTr(ToLaTeXConverter):
-- 
2.43.0

