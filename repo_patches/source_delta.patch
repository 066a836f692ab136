From 918759b15f51a065606bd7829c29d0f3b94f095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 01/68] fix: style strings with b:, i: or u: values raised
 ValueError

---
 pdfme/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 45f12ab..03bf1bb 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -196,7 +196,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                         'Style element "{}" must be 0 or 1: {}'
                         .format(attr, value)
                     )
-            if attr == "f":
+            elif attr == "f":
                 if value not in fonts.fonts:
                     font_found = False
 
-- 
2.43.0


From 8292329569cd409702e5b7b37525bf50461d8dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 02/68] fix: margins given as a one-number string or a 3-tuple
 raised

---
 pdfme/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 03bf1bb..46dedf1 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -113,7 +113,7 @@ def parse_margin(margin: MarginType) -> dict:
     if isinstance(margin, str):
         margin = re.split(',| ', margin)
         if len(margin) == 1:
-            margin = float(margin)
+            margin = float(margin[0])
         else:
             margin = [float(x) for x in margin]
 
@@ -128,7 +128,7 @@ def parse_margin(margin: MarginType) -> dict:
         elif len(margin) == 2:
             margin = margin * 2
         elif len(margin) == 3:
-            margin = margin + [margin[1]]
+            margin = [*margin, margin[1]]
         elif len(margin) > 4:
             margin = margin[0:4]
 
-- 
2.43.0


From af17298d56e1e305bfb521b1b12ef839a0009cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 03/68] fix: backslashes and carriage returns in strings were
 not escaped

---
 pdfme/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 4aafb09..fbf11b7 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -82,7 +82,8 @@ def parse_obj(obj: ObjectType) -> bytes:
     elif isinstance(obj, (int, float)):
         return str(obj).encode('latin')
     elif isinstance(obj, str):
-        return ('(' + re.sub(r'([()])', r'\\\1', obj) + ')').encode('latin')
+        obj = re.sub(r'([()\\])', r'\\\1', obj).replace('\r', '\\r')
+        return ('(' + obj + ')').encode('latin')
 
 
 def parse_dict(obj: dict) -> bytes:
-- 
2.43.0


From 0cc27e4f1d5071e75327efb72dfe6ff9e24f8b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 04/68] fix: numbers in exponent notation were written to the
 file

---
 pdfme/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index fbf11b7..83753fe 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -1,4 +1,5 @@
 import re
+from decimal import Decimal
 from typing import Iterable, Union
 class PDFObject:
     """A class that represents a PDF object.
@@ -80,7 +81,10 @@ def parse_obj(obj: ObjectType) -> bytes:
     elif isinstance(obj, bool):
         return b'true' if obj else b'false'
     elif isinstance(obj, (int, float)):
-        return str(obj).encode('latin')
+        ret = str(obj)
+        if 'e' in ret:
+            ret = format(Decimal(ret), 'f')
+        return ret.encode('latin')
     elif isinstance(obj, str):
         obj = re.sub(r'([()\\])', r'\\\1', obj).replace('\r', '\\r')
         return ('(' + obj + ')').encode('latin')
-- 
2.43.0


From 338c602b84d0a7b6d3f7aa31c5fd352efa993ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 05/68] fix: list_text was written to the page unescaped and
 with the wrong font mode

---
 pdfme/text.py | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 7e05300..203c90f 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -844,31 +844,16 @@ class PDFTextBase:
                     if self.list_state.size > full_line_height:
                         full_line_height = self.list_state.size
 
-                    style = self.list_style
-                    font_family = style.get('f', None)
-                    if not font_family:
-                        current_line_style = self.current_line.line_parts[0].style
-                        font_family = current_line_style.get('f', None)
-
-                    font = None
-                    if font_family not in STANDARD_FONTS:
-                        mode = 'n'
-                        if 'b' in style:
-                            mode = 'b'
-                        if 'i' in style:
-                            if mode == 'b':
-                                mode += 'i'
-                            else:
-                                mode = 'i'
-
-                        font = self.fonts.get_font(font_family, mode)
+                    list_text = str(self.list_text)
+                    if self.list_state.font_family in STANDARD_FONTS:
+                        list_text = self.clean_words([list_text])
+                    else:
+                        list_text = self.list_state.font.encode_text(list_text)
 
                     self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
                         round(full_line_height, 3),
                         self.list_state.compare(self.last_state),
-                        (font.encode_text(self.list_text) if
-                            font else self.list_text),
-                        first_indent
+                        list_text, round(first_indent, 3)
                     )
                 else:
                     self.text += ' {} -{} Td'.format(
-- 
2.43.0


From 8d3d24ce5cb957d326d21ca81e2b288cd7497604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 06/68] fix: TrueType text was escaped twice and drawn in the
 wrong mode

---
 pdfme/text.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 203c90f..bb4ee62 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -943,21 +943,9 @@ class PDFTextBase:
             self.last_factor = tw
 
         if text != '':
-            style = part.style
-            if ((font_family := style.get('f', None)) and 
-                font_family not in STANDARD_FONTS):
-            
-                mode = 'n'
-                if 'b' in style:
-                    mode = 'b'
-                if 'i' in style:
-                    if mode == 'b':
-                        mode += 'i'
-                    else:
-                        mode = 'i'
-
-                font = part.fonts.get_font(font_family, mode)
-                stream += ' ({})Tj'.format(font.encode_text(text))
+            if part.state.font_family not in STANDARD_FONTS:
+                text = part.state.font.encode_text(''.join(part.words))
+                stream += ' ({})Tj'.format(text)
             else:
                 stream += ' ({})Tj'.format(text)
         return stream
-- 
2.43.0


From f778a473a089c8e346f8def156de0045de73c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 07/68] fix: text lost or list bullet dropped when a paragraph
 is run again from an earlier state

---
 pdfme/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index bb4ee62..7f59c93 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -549,8 +549,10 @@ class PDFTextBase:
                 word of the last part that was added the last time method
                 ``run`` was called.
         """
-        self.last_part = last_part
-        self.last_word = last_word
+        self.last_part = self.last_part_line = last_part
+        self.last_word = self.last_word_line = last_word
+        if last_part == 0 and last_word == 0:
+            self.is_first_line = True
 
     def setup(
         self, x: Number=None, y:Number=None, width: Number=None,
-- 
2.43.0


From 35ad53539c80d5f4b8450f78662fa34e2f0f2ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 08/68] fix: resumed, indented and list paragraphs were wrapped
 and placed wrongly

---
 pdfme/text.py | 74 +++++++++++++++++++++++----------------------------
 1 file changed, 34 insertions(+), 40 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 7f59c93..e921cd2 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -468,7 +468,6 @@ class PDFTextBase:
         self.content = content
         self.finished = False
         self.is_first_line = True
-        self.correct_indent = True
         self.list_setup_done = False
 
     @property
@@ -605,11 +604,13 @@ class PDFTextBase:
         self.lines = []
 
         line_width = self.width - (self.indent if self.is_first_line else 0)
+        if self.list_setup_done:
+            line_width -= self.list_indent
         self.current_line = PDFTextLine(
             self.fonts, line_width, self.text_align, self.line_height
         )
 
-        self.last_indent = 0
+        self.last_x = 0
         self.last_state = self.last_factor = self.last_fill = None
         self.last_color = self.last_stroke_width = None
 
@@ -647,8 +648,9 @@ class PDFTextBase:
                     self.last_word_added = 0
                     continue_ = self.add_current_line(True)
                     self.current_line = PDFTextLine(
-                        self.fonts, self.width, self.text_align,
-                        self.line_height
+                        self.fonts,
+                        self.width - (self.list_indent if self.list_text else 0),
+                        self.text_align, self.line_height
                     )
                     if not continue_:
                         return self.result
@@ -702,7 +704,6 @@ class PDFTextBase:
                 for w in re.split('( +)', words)
                 if w != ''
             ]
-        is_last_part = part_index == len(self.content) - 1
 
         for word_index in range(self.last_word, len(words)):
             word = words[word_index]
@@ -711,9 +712,7 @@ class PDFTextBase:
                 self.last_part_added = part_index
                 self.last_word_added = word_index + 1
             elif ans['status'] == 'finished':
-                continue_ = self.add_current_line(
-                    is_last_part and word_index == len(words) - 1
-                )
+                continue_ = self.add_current_line()
                 ans['new_line'].max_width = self.width - (
                     self.list_indent if self.list_text else 0
                 )
@@ -740,7 +739,13 @@ class PDFTextBase:
                 self.current_line.next_line.line_parts
             )
 
+        if self.list_text and not self.list_setup_done:
+            self.list_setup_done = True
+            self.setup_list()
+
         line_height = self.current_line.height
+        if self.list_text and self.is_first_line:
+            line_height = max(line_height, self.list_state.size)
         if self.first_line_added:
             line_height *= self.line_height
         else:
@@ -774,7 +779,9 @@ class PDFTextBase:
             TypeError: if list_style or list_indent passed to this instance
                 are not a dict and an number respectively.
         """
-        style = self.current_line.next_line.line_parts[0].style.copy()
+        style = TEXT_DEFAULTS.copy()
+        if self.current_line.next_line is not None:
+            style.update(self.current_line.next_line.line_parts[0].style)
 
         if self.list_style is None:
             self.list_style = {}
@@ -790,10 +797,6 @@ class PDFTextBase:
         style.update(self.list_style)
         line_part = PDFTextLinePart(style, self.fonts)
 
-        self.current_line_used_fonts.add(
-            (line_part.state.font_family, line_part.state.font_mode)
-        )
-
         if self.list_indent is None:
             self.list_indent = line_part.get_word_width(str(self.list_text))
         elif not isinstance(self.list_indent, (float, int)):
@@ -819,30 +822,24 @@ class PDFTextBase:
         line_height = line.height
         full_line_height = line_height
         ignore_factor = self.text_align != 'j' or is_last or spaces_width == 0
-        factor_width = self.width - words_width - x
-        adjusted_indent = 0
         if self.text_align in ['r', 'c']:
-            indent = self.width - words_width - spaces_width
+            align_indent = self.width - x - words_width - spaces_width
             if self.text_align == 'c':
-                indent /= 2
-            x += indent
-            adjusted_indent = indent - self.last_indent
-            self.last_indent = indent
+                align_indent /= 2
+            x += align_indent
+        elif self.is_first_line:
+            x += self.indent
+        factor_width = self.width - words_width - x
 
         if not self.started:
             self.started = True
             if self.is_first_line:
-                factor_width -= self.indent
-                x += self.indent
                 self.is_first_line = False
 
-                first_indent = (
-                    adjusted_indent if self.text_align in ['r', 'c']
-                    else self.indent
-                )
-
                 if self.list_text:
-                    first_indent += self.list_indent
+                    self.used_fonts.add((
+                        self.list_state.font_family, self.list_state.font_mode
+                    ))
                     if self.list_state.size > full_line_height:
                         full_line_height = self.list_state.size
 
@@ -855,32 +852,29 @@ class PDFTextBase:
                     self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
                         round(full_line_height, 3),
                         self.list_state.compare(self.last_state),
-                        list_text, round(first_indent, 3)
+                        list_text, round(x, 3)
                     )
                 else:
                     self.text += ' {} -{} Td'.format(
-                        round(first_indent, 3), round(full_line_height, 3)
+                        round(x, 3), round(full_line_height, 3)
                     )
             else:
-                first_indent = adjusted_indent
-                if self.list_text:
-                    first_indent += self.list_indent
                 self.text += ' {} -{} Td'.format(
-                    round(first_indent, 3), round(full_line_height, 3)
+                    round(x, 3), round(full_line_height, 3)
                 )
         else:
-            if self.correct_indent:
-                self.correct_indent = False
-                adjusted_indent -= self.indent
-
             full_line_height *= self.line_height
 
-            self.text += ' {} -{} Td'.format(round(adjusted_indent, 3),
-                                        round(full_line_height, 3))
+            self.text += ' {} -{} Td'.format(
+                round(x - self.last_x, 3), round(full_line_height, 3)
+            )
 
+        self.last_x = x
         self.y_ -= full_line_height
 
         factor = 1 if ignore_factor else factor_width / spaces_width
+        if is_last and self.text_align == 'j' and spaces_width > 0:
+            factor = min(1, factor_width / spaces_width)
 
         for part in line.line_parts:
             text = self.clean_words(part.words)
-- 
2.43.0


From d18d11e4d2e52512bcf91967352d04dce06250f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 09/68] fix: repeated spaces at a line end disturbed alignment
 and justification

---
 pdfme/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index e921cd2..822b3ac 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -340,6 +340,7 @@ class PDFTextLine:
                 if self.is_last_word_space:
                     return {'status': 'ignored'}
                 else:
+                    self.is_last_word_space = True
                     self.add_accumulated()
                     return {'status': 'added'}
             else:
@@ -875,6 +876,7 @@ class PDFTextBase:
         factor = 1 if ignore_factor else factor_width / spaces_width
         if is_last and self.text_align == 'j' and spaces_width > 0:
             factor = min(1, factor_width / spaces_width)
+            factor = max(factor, line.justify_min_factor)
 
         for part in line.line_parts:
             text = self.clean_words(part.words)
-- 
2.43.0


From 95530154ef6f2745aa16e0033554991d72a5c47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 10/68] fix: a trailing space disturbed the alignment of the
 last line

---
 pdfme/text.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 822b3ac..d69f81a 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -739,6 +739,11 @@ class PDFTextBase:
             self.current_line.line_parts.extend(
                 self.current_line.next_line.line_parts
             )
+            for part in reversed(self.current_line.line_parts):
+                if len(part.words):
+                    if part.words[-1] == ' ':
+                        part.pop_word()
+                    break
 
         if self.list_text and not self.list_setup_done:
             self.list_setup_done = True
-- 
2.43.0


From 797f9097dd5650421d176f23ec043ccb98a33151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 11/68] fix: page ranges with an open end ('3:', '::2') raised

---
 pdfme/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 46dedf1..110a6a1 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -1,4 +1,5 @@
 import re
+import sys
 from typing import Any, Iterable, Union
 
 page_sizes = {
@@ -411,9 +412,11 @@ def parse_range_string(range_str: str) -> MuiltiRange:
             first = range_parts[0].strip()
             range_parts[0] = 0 if first == '' else int(first)
             if len(range_parts) > 1:
-                range_parts[1] = int(range_parts[1].strip())
+                last = range_parts[1].strip()
+                range_parts[1] = sys.maxsize if last == '' else int(last)
             if len(range_parts) > 2:
-                range_parts[2] = int(range_parts[2].strip())
+                step = range_parts[2].strip()
+                range_parts[2] = 1 if step == '' else int(step)
             multi_range.add(*range_parts)
 
     return multi_range
-- 
2.43.0


From 3a1d10b4ea8c0eb050e3e49fe8cf037fe8c38ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 12/68] fix: sizes and offsets after a space in a style string
 were rejected

---
 pdfme/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 110a6a1..eeb5be9 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -217,7 +217,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                 style['c'] = PDFColor(value)
             elif attr == "bg":
                 style['bg'] = PDFColor(value)
-            elif attrs[0] == "s":
+            elif attr == "s":
                 try:
                     v = float(value)
                     if int(v) == v:
@@ -228,7 +228,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                         'Style element value for "s" is wrong:'
                         ' {}'.format(value)
                     )
-            elif attrs[0] == 'r':
+            elif attr == 'r':
                 try: style['r'] = float(value)
                 except:
                     raise ValueError(
-- 
2.43.0


From a60605c8ef9c4c55a6167eac891c0b5f1111abc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 13/68] fix: colors with a wrong number of components were
 silently taken as no color

---
 pdfme/color.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/color.py b/pdfme/color.py
index 4809c0c..079d9a4 100644
--- a/pdfme/color.py
+++ b/pdfme/color.py
@@ -266,5 +266,7 @@ def parse_color(color: ColorType) -> list:
             return [float(c) for c in color[:4]]
         except:
             raise TypeError("Couldn't parse numeric color value: {}".format(color))
+    else:
+        raise TypeError("Invalid color value: {}".format(color))
 
 from .utils import copy
-- 
2.43.0


From fc643e75dcb75d201920f221b4e70dee4c024151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 14/68] fix: an outline entry more than one level below the
 previous one raised IndexError

---
 pdfme/pdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 6e2c145..d96bc4e 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -633,6 +633,8 @@ class PDF:
                 outline_data = json.loads(id_[9:])
                 outline = self.outlines
                 for _ in range(outline_data['level'] - 1):
+                    if len(outline) == 0:
+                        break
                     outline = outline[-1].setdefault('children', [])
 
                 outline.append(outline_data)
-- 
2.43.0


From 85c2d5f699dba0827828df9b48917b2c7d978a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 15/68] fix: lines and fills of tables were drawn again for
 every try of column balancing

---
 pdfme/content.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 983f1ed..bf98075 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -388,7 +388,7 @@ class PDFContentPart:
         self.delayed = copy(self.section_delayed) # current delayed elements
         self.will_reset = False
         self.resetting = False
-        self.parts_index = len(self.p.parts)
+        self.save_parts_index()
 
         self.minim_diff_last = None
         self.minim_diff = None
@@ -648,7 +648,10 @@ class PDFContentPart:
                 return False
 
         self.will_reset = False
-        self.p.parts = self.p.parts[:self.parts_index]
+        parts_index, lines_index, fills_index = self.parts_index
+        self.p.parts = self.p.parts[:parts_index]
+        self.p.lines = self.p.lines[:lines_index]
+        self.p.fills = self.p.fills[:fills_index]
         self.go_to_beginning()
 
         if self.minim_diff is None:
@@ -669,6 +672,14 @@ class PDFContentPart:
 
         return True
 
+    def save_parts_index(self) -> None:
+        """Function that remembers how many parts, lines and fills were added
+        before this section, to discard the rest of them when resetting.
+        """
+        self.parts_index = (
+            len(self.p.parts), len(self.p.lines), len(self.p.fills)
+        )
+
     def go_to_beginning(self) -> None:
         """Function that takes the x and y coordinates of this element to the
         ``min_x`` and ``min_y`` coordinates.
@@ -726,7 +737,7 @@ class PDFContentPart:
                     return ret
                 self.min_y = ret['min_y']
                 self.min_x = ret['min_x']
-                self.parts_index = len(self.p.parts)
+                self.save_parts_index()
                 self.go_to_beginning()
                 return 'retry' if children_memory is None else ret
         else:
-- 
2.43.0


From c427b8cd75c7768ed9cdbeeaf12aca3a13937d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 16/68] fix: elements of a group were lost after the trial
 placement of the group

---
 pdfme/content.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index bf98075..48fd6c4 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -1137,9 +1137,12 @@ class PDFContentPart:
             dict: Containing instructions to the caller.
         """
         initial_y = self.y
+        initial_starting = self.starting
+        initial_last_bottom = self.last_bottom
 
         if not self.starting:
             self.y -=  style.get('margin_top', 0)
+        start_y = self.y
 
         images = {}
         images_size = 0
@@ -1163,11 +1166,15 @@ class PDFContentPart:
                     )
                 group_element['tries'] += 1
                 self.y = initial_y
+                self.starting = initial_starting
+                self.last_bottom = initial_last_bottom
                 return {'delayed': group_element, 'next': False, 'flow': True}
 
         new_images_size = images_size + self.y - self.max_y
         image_ratio = new_images_size / images_size if len(images) else 1
-        self.y = initial_y
+        self.y = start_y
+        self.starting = initial_starting
+        self.last_bottom = initial_last_bottom
 
         for i, element in enumerate(group_element['group']):
             min_height = None
-- 
2.43.0


From ffd8ba29ced91e6a68d2f7d3644315b4fb0e4305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 17/68] fix: rounding made the elements of a group with scaled
 images disappear

---
 pdfme/content.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 48fd6c4..ef1d53b 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -1170,7 +1170,10 @@ class PDFContentPart:
                 self.last_bottom = initial_last_bottom
                 return {'delayed': group_element, 'next': False, 'flow': True}
 
-        new_images_size = images_size + self.y - self.max_y
+        # a bit less than the available height, to absorb rounding errors
+        new_images_size = max(
+            images_size, images_size + self.y - self.max_y - 1e-6
+        )
         image_ratio = new_images_size / images_size if len(images) else 1
         self.y = start_y
         self.starting = initial_starting
-- 
2.43.0


From 68195110cf0a8b4f5d8f607abaf25deebe4058cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 18/68] fix: images and groups failed as never fitting because
 tries of column balancing were counted

---
 pdfme/content.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index ef1d53b..efd30b6 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -946,7 +946,8 @@ class PDFContentPart:
                 })
         else:
             self.y = initial_y
-            if element.setdefault('tries', 0) >= 50:
+            tries = element.get('tries', 0)
+            if tries >= 50:
                 raise Exception(
                     'Image element could not be fitted in the document (try '
                     'adding "min_height" style property to this image for us'
@@ -954,9 +955,8 @@ class PDFContentPart:
                     ': {}'
                     .format(element)
                 )
-            element['tries'] += 1
             image_place = style.get('image_place', 'flow')
-            ret['delayed'] = element
+            ret['delayed'] = self.count_try(element, tries)
             if image_place == 'normal':
                 ret['next'] = True
             elif image_place == 'flow':
@@ -1083,6 +1083,25 @@ class PDFContentPart:
             self.starting = False
             return {'delayed': None, 'next': False}
 
+    def count_try(self, element: dict, tries: int) -> dict:
+        """Function that returns a copy of an element that couldn't be added,
+        with one more try in it. The tries made while this element or one of its
+        ancestors is resetting (their columns are not complete then) don't count.
+
+        Args:
+            element (dict): The element that couldn't be added.
+            tries (int): The number of tries so far.
+
+        Returns:
+            dict: The copy of the element.
+        """
+        part = self
+        while part is not None and not part.resetting:
+            part = part.parent
+        element = copy(element)
+        element['tries'] = tries + 1 if part is None else tries
+        return element
+
     def get_element_styles(self, element: dict, inherited_style: dict):
         keys = [key for key in element.keys() if key.startswith('.')]
 
@@ -1159,16 +1178,19 @@ class PDFContentPart:
                 element, style, add_element=False, add_top_margin=i != 0
             )
             if not (isinstance(ans, dict) and ans.get('delayed') is None):
-                if group_element.setdefault('tries', 0) >= 50:
+                tries = group_element.get('tries', 0)
+                if tries >= 50:
                     raise Exception(
                         'Group element could not be fitted in the document: {}'
                         .format(group_element)
                     )
-                group_element['tries'] += 1
                 self.y = initial_y
                 self.starting = initial_starting
                 self.last_bottom = initial_last_bottom
-                return {'delayed': group_element, 'next': False, 'flow': True}
+                return {
+                    'delayed': self.count_try(group_element, tries),
+                    'next': False, 'flow': True
+                }
 
         # a bit less than the available height, to absorb rounding errors
         new_images_size = max(
-- 
2.43.0


From 6d9118495b168a93cffd12a2ff7d662933d04707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 19/68] fix: restoring the state of a table ignored its delayed
 cells

---
 pdfme/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index ae4f59e..10f5686 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -245,8 +245,8 @@ class PDFTable:
         """
         if current_index is not None:
             self.current_index = current_index
-        elif delayed is not None:
-            self.delayed = delayed
+        if delayed is not None:
+            self.delayed = copy(delayed)
 
     def set_default_border(self) -> None:
         """Method to create attribute ``default_border`` containing the default
-- 
2.43.0


From 7f5c5a336cd89c53cce1f5914402c1ab0ce7b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 20/68] fix: a nested box was started again when its remainder
 had to wait for delayed elements over a page break

---
 pdfme/content.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index efd30b6..1e6b380 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -722,8 +722,13 @@ class PDFContentPart:
                     'delayed': copy(self.delayed)
                 }
                 if children_memory is None:
-                    self.children_memory = []
-                    new_children_memory = [new_index]
+                    # a child that was interrupted to add delayed elements
+                    # should go on from where it was
+                    children_memory_ = copy(self.partial_children_memory or [])
+                    self.children_memory = children_memory_
+                    self.partial_children_memory = None
+                    new_children_memory = copy(children_memory_)
+                    new_children_memory.append(new_index)
                 else:
                     self.children_memory = copy(children_memory)
                     new_children_memory = copy(children_memory)
-- 
2.43.0


From 0030b2c2114ee9dabd0be185eb786c71e54396b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 21/68] fix: a nested box interrupted by delayed elements
 resumed from a stale position, losing or repeating text

---
 pdfme/content.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 1e6b380..bb31225 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -666,6 +666,7 @@ class PDFContentPart:
                 self.max_y += self.minim_diff
 
         self.resetting = True
+        self.partial_children_memory = None
 
         self.element_index = self.section_element_index
         self.delayed = copy(self.section_delayed)
@@ -1058,14 +1059,16 @@ class PDFContentPart:
         down_condition2 = self.partial_children_memory is not None
 
         if down_condition1 or down_condition2:
-            child = self.children_memory[-1] if down_condition1 else \
-                self.partial_children_memory[-1]
+            # an interruption in this section is newer than the state this
+            # section started from
+            memory = self.partial_children_memory if down_condition2 else \
+                self.children_memory
+            child = memory[-1]
             pdf_content.section_element_index = child['index']
             pdf_content.section_delayed = copy(child['delayed'])
             pdf_content.element_index = child['index']
             pdf_content.delayed = copy(child['delayed'])
-            pdf_content.children_memory = self.children_memory[:-1] \
-                if down_condition1 else self.partial_children_memory[:-1]
+            pdf_content.children_memory = memory[:-1]
 
             self.partial_children_memory = None
 
-- 
2.43.0


From 3ba63ebb4e527d6a5da9836ede72a89194b3144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 22/68] fix: a nested box started again when delayed elements
 before it filled another page

---
 pdfme/content.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index bb31225..490ff66 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -716,6 +716,7 @@ class PDFContentPart:
                 self.minim_forward = True
                 return 'break'
             else:
+                same_element = self.element_index == self.section_element_index
                 self.section_element_index = self.element_index
                 self.section_delayed = copy(self.delayed)
                 new_index = {
@@ -723,9 +724,14 @@ class PDFContentPart:
                     'delayed': copy(self.delayed)
                 }
                 if children_memory is None:
-                    # a child that was interrupted to add delayed elements
-                    # should go on from where it was
-                    children_memory_ = copy(self.partial_children_memory or [])
+                    # a child waiting for delayed elements to be added should
+                    # go on from where it was
+                    if self.partial_children_memory is not None:
+                        children_memory_ = copy(self.partial_children_memory)
+                    elif same_element:
+                        children_memory_ = copy(self.children_memory)
+                    else:
+                        children_memory_ = []
                     self.children_memory = children_memory_
                     self.partial_children_memory = None
                     new_children_memory = copy(children_memory_)
-- 
2.43.0


From 57452749b69ff6c4250289fa97f2643f9a2cc445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 23/68] fix: a group that fits with its images shrunk to
 min_height was rejected

---
 pdfme/content.py | 60 ++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 490ff66..204169a 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -909,7 +909,7 @@ class PDFContentPart:
 
     def process_image(
         self, element: dict, style: dict, add_parts: bool=True,
-        add_top_margin: bool=True
+        add_top_margin: bool=True, shrink_image: bool=False
     ) -> dict:
         """Function that tries to add an image to the current column rectangle,
         and add it to the delayed list if it can't add it.
@@ -938,7 +938,8 @@ class PDFContentPart:
         min_height = style.get('min_height', float('inf'))
 
         can_add = False
-        if height < self.max_height:
+        shrink_image = shrink_image and height > min_height
+        if height < self.max_height and not shrink_image:
             can_add = True
         elif min_height <= self.max_height:
             can_add = True
@@ -1129,7 +1130,8 @@ class PDFContentPart:
 
     def process_group_element(
         self, element: dict, inherited_style: dict, add_element: bool=False,
-        add_top_margin: bool=True, min_height: Optional[Number] = None
+        add_top_margin: bool=True, min_height: Optional[Number] = None,
+        shrink_image: bool=False
     ):
         element = self.parse_element(element)
         style, element_style = self.get_element_styles(element, inherited_style)
@@ -1145,7 +1147,7 @@ class PDFContentPart:
         elif 'image' in element:
             style['shrink'] = True
             return self.process_image(
-                element, style, add_element, add_top_margin
+                element, style, add_element, add_top_margin, shrink_image
             )
         elif 'table' in element or 'table_delayed' in element:
             return self.process_table(
@@ -1188,23 +1190,37 @@ class PDFContentPart:
                     images[i] = min_height
                     images_size += min_height
 
-            ans = self.process_group_element(
-                element, style, add_element=False, add_top_margin=i != 0
-            )
-            if not (isinstance(ans, dict) and ans.get('delayed') is None):
-                tries = group_element.get('tries', 0)
-                if tries >= 50:
-                    raise Exception(
-                        'Group element could not be fitted in the document: {}'
-                        .format(group_element)
-                    )
-                self.y = initial_y
-                self.starting = initial_starting
-                self.last_bottom = initial_last_bottom
-                return {
-                    'delayed': self.count_try(group_element, tries),
-                    'next': False, 'flow': True
-                }
+        # images are shrunk only if the group doesn't fit otherwise
+        for shrink_images in ([False, True] if len(images) else [False]):
+            self.y = start_y
+            self.starting = initial_starting
+            self.last_bottom = initial_last_bottom
+            fits = True
+            for i, element in enumerate(group_element['group']):
+                ans = self.process_group_element(
+                    element, style, add_element=False, add_top_margin=i != 0,
+                    shrink_image=shrink_images
+                )
+                if not (isinstance(ans, dict) and ans.get('delayed') is None):
+                    fits = False
+                    break
+            if fits:
+                break
+
+        if not fits:
+            tries = group_element.get('tries', 0)
+            if tries >= 50:
+                raise Exception(
+                    'Group element could not be fitted in the document: {}'
+                    .format(group_element)
+                )
+            self.y = initial_y
+            self.starting = initial_starting
+            self.last_bottom = initial_last_bottom
+            return {
+                'delayed': self.count_try(group_element, tries),
+                'next': False, 'flow': True
+            }
 
         # a bit less than the available height, to absorb rounding errors
         new_images_size = max(
@@ -1222,7 +1238,7 @@ class PDFContentPart:
                 min_height *= 1 if style.get('shrink', 0) else image_ratio
             self.process_group_element(
                 element, style, add_element=True, add_top_margin=i != 0,
-                min_height=min_height
+                min_height=min_height, shrink_image=shrink_images
             )
 
         return {'delayed': None, 'next': False}
-- 
2.43.0


From 927d9fb448f1bc0a53c8b652c59fd0e199c6cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 24/68] fix: the content of a first row made of rowspan cells
 was lost or moved to the next page

---
 pdfme/table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 10f5686..b61925e 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -552,7 +552,9 @@ class PDFTable:
 
         if self.first_row:
             self.first_row = False
-            if self.max_height == 0:
+            if self.max_height == 0 and not any(
+                height > 0 for height in self.heights_mem.values()
+            ):
                 return 'cancel'
 
         ret = True
-- 
2.43.0


From ff30c9869c37d2aba9f23b8db1fd3d9b537c1c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 25/68] fix: a table drew an empty strip at the bottom of a
 page for a row that starts on the next page

---
 pdfme/table.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index b61925e..9336d51 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -565,6 +565,9 @@ class PDFTable:
                 ret = False
                 break
 
+        if not ret:
+            self.max_height = max([self.max_height, *self.heights_mem.values()])
+
         self.x_abs = self.x + self.width
         last_border = self.get_border(self.current_index, len(row), True)
         self.process_borders(len(row), last_border, {})
@@ -820,7 +823,10 @@ class PDFTable:
         else:
             self.delayed[col] = delayed
 
-        real_height += padd_y if real_height>0 else (0 if self.first_row else 4)
+        if real_height > 0:
+            real_height += padd_y
+        elif did_finished and not self.first_row:
+            real_height = 4
         if rowspan > 0:
             self.heights_mem[col] = real_height
             real_height = 0
-- 
2.43.0


From 52ef4dae72492dcbfd64b7e0c80f7a65d7b49850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 26/68] fix: a table cell that never fits added empty pages
 forever

---
 pdfme/table.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 9336d51..30675a0 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -196,6 +196,7 @@ class PDFTable:
         self.setup_borders([] if borders is None else borders)
         self.setup_fills([] if fills is None else fills)
         self.first_row = True
+        self.tries = 0
 
     def setup(
         self, x: Number=None, y: Number=None,
@@ -228,10 +229,13 @@ class PDFTable:
             dict: a dict with the state of this table.
         """
         return {
-            'current_index': self.current_index, 'delayed': copy(self.delayed)
+            'current_index': self.current_index, 'delayed': copy(self.delayed),
+            'tries': self.tries
         }
 
-    def set_state(self, current_index: int=None, delayed: dict=None) -> None:
+    def set_state(
+        self, current_index: int=None, delayed: dict=None, tries: int=None
+    ) -> None:
         """Method to set the state of this table.
         
         The arguments of this method define the current state of this table,
@@ -242,11 +246,15 @@ class PDFTable:
                 added.
             delayed (dict, optional): a dict with delayed cells that should be
                 added before the next row.
+            tries (int, optional): the number of times that nothing could be
+                added since the last time something was added.
         """
         if current_index is not None:
             self.current_index = current_index
         if delayed is not None:
             self.delayed = copy(delayed)
+        if tries is not None:
+            self.tries = tries
 
     def set_default_border(self) -> None:
         """Method to create attribute ``default_border`` containing the default
@@ -498,11 +506,20 @@ class PDFTable:
                 else:
                     break
 
-        if cancel:
+        if cancel or (
+            self.current_height == 0 and self.current_index < len(self.content)
+        ):
             self.parts = []
             self.lines = []
             self.fills = []
+            self.tries += 1
+            if self.tries >= 50:
+                raise Exception(
+                    'Row {} of a table could not be fitted in the document'
+                    .format(self.current_index + 1)
+                )
             return
+        self.tries = 0
 
         self.top_lines = []
         self.top_lines_interrupted = True
@@ -552,7 +569,7 @@ class PDFTable:
 
         if self.first_row:
             self.first_row = False
-            if self.max_height == 0 and not any(
+            if len(self.delayed) > 0 and self.max_height == 0 and not any(
                 height > 0 for height in self.heights_mem.values()
             ):
                 return 'cancel'
-- 
2.43.0


From ab77278c4ee404d06eade9ed609798081423ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 27/68] fix: the border above the second column of a merged
 cell was missing next to a merged cell of several rows

---
 pdfme/table.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 30675a0..c6b9577 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -679,7 +679,7 @@ class PDFTable:
         elif not is_delayed:
             rowspan_memory['rows'] -= 1
             self.colspan = rowspan_memory['cols']
-            self.is_rowspan = True
+            self.is_rowspan = self.colspan > 0
             border_top['width'] = 0
 
             if rowspan_memory['rows'] == 0:
@@ -688,8 +688,6 @@ class PDFTable:
                     self.fills_mem[col]['add_later'] = False
                 if self.heights_mem.get(col, 0) > self.max_height:
                     self.max_height = self.heights_mem[col]
-                if self.colspan == 0:
-                    self.is_rowspan = False
             can_continue = True
         return can_continue
 
-- 
2.43.0


From 87a949b7ca5416f396817eb2210373d9a92b4433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 28/68] fix: finished cells of a table row continued on the
 next page lost their fill, margins and spans there

---
 pdfme/table.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index c6b9577..4300a3c 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -174,6 +174,7 @@ class PDFTable:
 
         self.cols_count = len(content[0])
         self.delayed = {}
+        self.finished_cells = {}
 
         if widths is not None:
             if not isinstance(widths, (list, tuple)):
@@ -230,11 +231,12 @@ class PDFTable:
         """
         return {
             'current_index': self.current_index, 'delayed': copy(self.delayed),
-            'tries': self.tries
+            'tries': self.tries, 'finished_cells': copy(self.finished_cells)
         }
 
     def set_state(
-        self, current_index: int=None, delayed: dict=None, tries: int=None
+        self, current_index: int=None, delayed: dict=None, tries: int=None,
+        finished_cells: dict=None
     ) -> None:
         """Method to set the state of this table.
         
@@ -248,6 +250,8 @@ class PDFTable:
                 added before the next row.
             tries (int, optional): the number of times that nothing could be
                 added since the last time something was added.
+            finished_cells (dict, optional): a dict with the cells already
+                finished that reach the current row.
         """
         if current_index is not None:
             self.current_index = current_index
@@ -255,6 +259,8 @@ class PDFTable:
             self.delayed = copy(delayed)
         if tries is not None:
             self.tries = tries
+        if finished_cells is not None:
+            self.finished_cells = copy(finished_cells)
 
     def set_default_border(self) -> None:
         """Method to create attribute ``default_border`` containing the default
@@ -488,7 +494,10 @@ class PDFTable:
         can_continue = True
         if len(self.delayed) > 0:
             can_continue = False
-            row = [self.delayed.get(i) for i in range(self.cols_count)]
+            row = [
+                self.delayed.get(i, self.finished_cells.get(i))
+                for i in range(self.cols_count)
+            ]
             action = self.add_row(row, True)
             if action == 'continue':
                 self.current_index += 1
@@ -562,6 +571,10 @@ class PDFTable:
         self.top_lines_interrupted = True
         self.is_rowspan = False
         self.y_abs = self.y - self.current_height
+        self.finished_cells = {
+            col: cell for col, cell in self.finished_cells.items()
+            if is_delayed or cell['row'] + cell['rowspan'] > self.current_index
+        }
         for col, element in enumerate(row):
             move_next = self.add_cell(col, element, is_delayed)
             if move_next:
@@ -737,7 +750,7 @@ class PDFTable:
         return element, style, cell_style
 
     def _setup_cell_fill(
-        self, col: int, cell_style: dict, width: Number, rowspan: int
+        self, col: int, cell_style: dict, width: Number, rowspan: int, row: int
     ) -> None:
         """Method to optionally add the fill color in ``cell`style`` to
         attribute ``fills_mem``
@@ -747,12 +760,13 @@ class PDFTable:
             cell_style (dict): the cell style.
             width (Number): the width of the cell.
             rowspan (int): the rowspan of the cell.
+            row (int): the row where the cell starts.
         """
         fill_color = cell_style.get('cell_fill', None)
 
         if fill_color is None:
             fill_color = (
-                self.fills_defs.get(self.current_index, {}).get(col, None)
+                self.fills_defs.get(row, {}).get(col, None)
             )
 
         if fill_color is not None:
@@ -809,12 +823,14 @@ class PDFTable:
             'rowspan': element.get('rowspan', 1), 'row': row_added
         }
 
-        self._setup_cell_fill(col, cell_style, width + padd_x, rowspan)
+        self._setup_cell_fill(
+            col, cell_style, width + padd_x, rowspan, row_added
+        )
 
         keys = [key for key in element.keys() if key.startswith('.')]
 
         real_height = 0
-        did_finished = False
+        did_finished = was_finished = self._is_delayed_type(element, 'finished')
         if len(keys) > 0 or self._is_delayed_type(element, 'text'):
             real_height, did_finished = self.process_text(
                 element, x, y, width, height, style, delayed
@@ -835,12 +851,14 @@ class PDFTable:
 
         if did_finished:
             self.delayed.pop(col, None)
+            delayed.update({'delayed': None, 'type': 'finished'})
+            self.finished_cells[col] = delayed
         else:
             self.delayed[col] = delayed
 
         if real_height > 0:
             real_height += padd_y
-        elif did_finished and not self.first_row:
+        elif did_finished and not was_finished and not self.first_row:
             real_height = 4
         if rowspan > 0:
             self.heights_mem[col] = real_height
-- 
2.43.0


From 149997efb29e52257652bd114ea579cd1e47085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 29/68] fix: a stream was lost when writing was interrupted
 while it was encoded

---
 pdfme/parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 83753fe..adab80a 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -147,6 +147,7 @@ def parse_stream(obj: dict) -> bytes:
     Returns:
         bytes: bytes representing the corresponding PDF Stream.
     """
+    obj = obj.copy()
     stream_ = obj.pop('__stream__')
     skip_filter = obj.pop('__skip_filter__', False)
 
@@ -164,9 +165,6 @@ def parse_stream(obj: dict) -> bytes:
 
     obj['Length'] = len(stream)
     ret = parse_dict(obj) + b'stream\n' + stream + b'\nendstream'
-    obj['__stream__'] = stream_
-    if skip_filter:
-        obj['__skip_filter__'] = True
     return ret
 
 from .encoders import encode_stream
-- 
2.43.0


From f7e2c458c52bfc90efcf743b5814096b3b4724b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 30/68] fix: the destination of a label moved to the last piece
 of a text split over pages or columns

---
 pdfme/pdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index d96bc4e..699a2ba 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -600,10 +600,10 @@ class PDF:
             if id_.startswith('$label:'):
                 d = rects[0]
                 x_ref = x + d[0]
-                self.dests[id_[7:]] = [
+                self.dests.setdefault(id_[7:], [
                     self.page.page.id, b'/XYZ', round(x_ref, 3),
                     round(y + d[3], 3), round(x_ref/self.page.width, 3) + 1
-                ]
+                ])
             elif id_.startswith('$ref:'):
                 for r in rects:
                     self.page.add_reference(
-- 
2.43.0


From b3c8bb1cbf4122cd4ad5feef7a46ad2286a5204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 31/68] fix: a text split over pages or columns got one outline
 entry for every piece

---
 pdfme/pdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 699a2ba..a8706db 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -170,6 +170,7 @@ class PDF:
         self.pages = []
         self.running_sections = []
         self.outlines = []
+        self.outline_ids = set()
 
         self.base = PDFBase()
         self.root = self.base.add({ 'Type': b'/Catalog'})
@@ -630,6 +631,9 @@ class PDF:
                         ]
                     )
             elif id_.startswith('$outline:'):
+                if id_ in self.outline_ids:
+                    continue
+                self.outline_ids.add(id_)
                 outline_data = json.loads(id_[9:])
                 outline = self.outlines
                 for _ in range(outline_data['level'] - 1):
-- 
2.43.0


From c34728db47f4c0f7d7f8f2b2258a128f9faf7fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 32/68] fix: closed outline entries had a wrong Count

---
 pdfme/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index a8706db..e055f1e 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -1042,7 +1042,7 @@ class PDF:
                     count += count_
                     obj['Count'] = count_
                 else:
-                    obj['Count'] = -1
+                    obj['Count'] = -count_
 
         parent['Last'] = obj.id
         return count
-- 
2.43.0


From 6f8ed932c0ef37ba70cb8dded1acdd268dcb8851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 33/68] fix: the default title of an outline entry showed
 Python code for styled parts

---
 pdfme/text.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index d69f81a..56b947b 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -8,6 +8,30 @@ TEXT_DEFAULTS = {'f': 'Helvetica', 'c': 0.1, 's': 11, 'r': 0, 'bg': None}
 
 ContentType = Union[str, list, tuple, dict]
 Number = Union[int, float]
+def plain_text(elements: Union[list, tuple]) -> str:
+    """Function to get the text of a list of paragraph elements without styles.
+
+    Args:
+        elements (list, tuple): elements of a paragraph part.
+
+    Returns:
+        str: the text of the elements.
+    """
+    text = ''
+    for element in elements:
+        if isinstance(element, dict):
+            for key, value in element.items():
+                if key.startswith('.'):
+                    element = value
+                    break
+            else:
+                continue
+        if isinstance(element, (list, tuple)):
+            text += plain_text(element)
+        else:
+            text += str(element)
+    return text
+
 class PDFState:
     """Class that represents the state of a paragraph line part.
 
@@ -1286,7 +1310,7 @@ class PDFText(PDFTextBase):
             text_part['ids'].append('$uri:' + uri)
         outline = content.get('outline')
         if isinstance(outline, dict):
-            text = outline.get('text', ''.join(str(e) for e in elements))
+            text = outline.get('text', plain_text(elements))
             level = outline.get('level', 1)
             if label is None:
                 outline_label = str(uuid4())
-- 
2.43.0


From d592ae665c08a5ab1eee9c8b7befd823a016d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 34/68] fix: titles and labels with characters outside Latin-1
 raised when written

---
 pdfme/parser.py | 19 +++++++++++++++++--
 pdfme/pdf.py    |  4 ++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index adab80a..d28d18b 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -86,8 +86,23 @@ def parse_obj(obj: ObjectType) -> bytes:
             ret = format(Decimal(ret), 'f')
         return ret.encode('latin')
     elif isinstance(obj, str):
-        obj = re.sub(r'([()\\])', r'\\\1', obj).replace('\r', '\\r')
-        return ('(' + obj + ')').encode('latin')
+        bytes_ = re.sub(br'([()\\])', br'\\\1', encode_string(obj))
+        return b'(' + bytes_.replace(b'\r', b'\\r') + b')'
+
+def encode_string(string: str) -> bytes:
+    """Function to get the bytes of a string, in UTF-16 if latin encoding is
+    not enough.
+
+    Args:
+        string (str): string to be encoded.
+
+    Returns:
+        bytes: the encoded string.
+    """
+    try:
+        return string.encode('latin')
+    except UnicodeEncodeError:
+        return b'\xfe\xff' + string.encode('utf-16-be')
 
 
 def parse_dict(obj: dict) -> bytes:
diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index e055f1e..0ba0a5b 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -1002,7 +1002,7 @@ class PDF:
         dests = list(self.dests.keys())
         if len(dests) == 0:
             return
-        dests.sort()
+        dests.sort(key=encode_string)
         self._build_dests_tree(dests, [self.dests[k] for k in dests])
 
     def _build_outlines_tree(
@@ -1082,7 +1082,7 @@ from .content import PDFContent
 from .fonts import PDFFonts
 from .image import PDFImage
 from .page import PDFPage
-from .parser import PDFObject
+from .parser import PDFObject, encode_string
 from .table import PDFTable
 from .text import PDFText
 from .utils import (
-- 
2.43.0


From f55f0ed1543d5373dbebdca377fefea6f601dba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 35/68] fix: columns were balanced before the delayed elements
 of the box were placed

---
 pdfme/content.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 204169a..2fc078c 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -504,7 +504,8 @@ class PDFContentPart:
         '''
         len_elems = len(self.elements) - 1
         while self.element_index <= len_elems:
-            last = self.element_index == len_elems
+            # delayed elements are placed after the last one of the list
+            last = self.element_index == len_elems and len(self.delayed) == 0
             ret = self.process(self.elements[self.element_index], last=last)
             if ret in ['interrupt', 'break', 'partial_next']:
                 return ret
-- 
2.43.0


From 7412ce5ad528981e758fec31637b5987ba0ebcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 36/68] fix: nested boxes ran past their bottom when delayed
 elements wait between them and the column

---
 pdfme/content.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfme/content.py b/pdfme/content.py
index 2fc078c..635b46f 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -752,6 +752,11 @@ class PDFContentPart:
                 self.min_x = ret['min_x']
                 self.save_parts_index()
                 self.go_to_beginning()
+
+                if len(self.delayed) > 0 and children_memory is not None:
+                    self.partial_children_memory = copy(children_memory)
+                    return 'partial_next'
+
                 return 'retry' if children_memory is None else ret
         else:
             self.column += 1
-- 
2.43.0


From 061f15c1f1204b74520daba7ce3ee0c64ecca48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:39 +0000
Subject: [PATCH 37/68] fix: the last element of a box was not placed beside
 delayed ones, leaving room unused

---
 pdfme/content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 635b46f..23c7916 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -462,7 +462,7 @@ class PDFContentPart:
 
         if (
             len(self.delayed) > 0 and
-            self.element_index >= len(self.elements) - 1
+            self.element_index >= len(self.elements)
         ):
             return 'next'
 
-- 
2.43.0


From 1c2040442f02e7687a90a5dd59f8c7e1d63a2b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 38/68] fix: the position for the next element was moved by
 every part of a table or content box, on top of its height

---
 pdfme/pdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 0ba0a5b..de386d4 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -904,6 +904,7 @@ class PDF:
         Args:
             parts (list, tuple): the iterable just explained.
         """
+        x, y = self.page.x, self.page._y
         for part in parts:
             part = part.copy()
             type_ = part.pop('type')
@@ -911,6 +912,7 @@ class PDF:
                 self._add_text(**part)
             elif type_ == 'image':
                 self.add_image(**part)
+        self.page.x, self.page._y = x, y
 
     def _build_pages_tree(self, page_list:list, first_level:bool=True) -> None:
         """Method to build the PDF pages tree.
-- 
2.43.0


From 275d4e6ce642ad41d918f6789a37ddf39d0c6d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 39/68] fix: images were drawn above the position given for
 their top

---
 pdfme/pdf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index de386d4..03fb76b 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -415,12 +415,14 @@ class PDF:
         if x is not None:
             self.page.x = x
         if y is not None:
-            self.page._y = y
+            self.page.y = y
 
+        top = self.page.y
+        self.page.y = top + height
         self.page.add_image(image_obj.id, width, height)
 
-        if move == 'bottom':
-            self.page.y += height
+        if move != 'bottom':
+            self.page.y = top
         if move == 'next':
             self.page.x += width
 
@@ -899,7 +901,8 @@ class PDF:
         for images. The other keys in a ``text`` part are the ones obtained from
         PDFText ``result`` property, and the other keys in a ``image`` part,
         should be the same as the arguments for :meth:`pdfme.pdf.PDF.add_image`
-        method.
+        method, but with ``y`` the distance from the bottom of the page to the
+        bottom of the image.
 
         Args:
             parts (list, tuple): the iterable just explained.
@@ -911,6 +914,7 @@ class PDF:
             if type_ == 'paragraph':
                 self._add_text(**part)
             elif type_ == 'image':
+                part['y'] = self.page.height - part['y'] - part['height']
                 self.add_image(**part)
         self.page.x, self.page._y = x, y
 
-- 
2.43.0


From 9e8ff634ebe1f0ebf2d2f8629639ec04ce14dd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:37 +0000
Subject: [PATCH 40/68] fix: an image exactly as high as the room for it was
 never placed

---
 pdfme/content.py | 2 +-
 pdfme/table.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 23c7916..c01d798 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -945,7 +945,7 @@ class PDFContentPart:
 
         can_add = False
         shrink_image = shrink_image and height > min_height
-        if height < self.max_height and not shrink_image:
+        if height <= self.max_height and not shrink_image:
             can_add = True
         elif min_height <= self.max_height:
             can_add = True
diff --git a/pdfme/table.py b/pdfme/table.py
index 4300a3c..88181a9 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -943,7 +943,7 @@ class PDFTable:
 
         real_height = 0
         finished = False
-        if img_height < height:
+        if img_height <= height:
             real_height = img_height
             self.parts.append({
                 'type': 'image', 'pdf_image': pdf_image,
-- 
2.43.0


From 550c94c36800afe7b4e942c225d66c765e5b47c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:38 +0000
Subject: [PATCH 41/68] fix: CMYK images with the inverted colors of Adobe were
 shown as negatives

---
 pdfme/image.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfme/image.py b/pdfme/image.py
index e45d28f..e1ace2f 100644
--- a/pdfme/image.py
+++ b/pdfme/image.py
@@ -91,6 +91,7 @@ class PDFImage:
             bytes_ (BufferedIOBase): A file-like object containing the
                 image.
         """
+        adobe = False
         try:
             while True:
                 markerHigh, markerLow = struct.unpack("BB", bytes_.read(2))
@@ -107,6 +108,8 @@ class PDFImage:
                 else:
                     (data_size,) = struct.unpack(">H", bytes_.read(2))
                     data = bytes_.read(data_size - 2) if data_size > 2 else b""
+                    if markerLow == 0xEE and data[:5] == b"Adobe":
+                        adobe = True
                     if (
                         (markerLow >= 0xC0 and markerLow <= 0xC3)
                         or (markerLow >= 0xC5 and markerLow <= 0xC7)
@@ -145,6 +148,8 @@ class PDFImage:
             "__skip_filter__": True,
             "__stream__": image_data,
         }
+        if layers == 4 and adobe:
+            self.pdf_obj["Decode"] = [1, 0] * 4
 
     def parse_png(self, bytes_: BinaryIO) -> None:
         """Method to convert a PNG image to a JPEG image and later parse it as
-- 
2.43.0


From 1550bc4e48c3f7b4e04c88dd4295176a240db9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 42/68] fix: page styles of sections and per_page entries
 leaked to the following pages

---
 pdfme/document.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index d7881f9..2e56923 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -171,6 +171,11 @@ class PDFDocument:
             **page_args, **style_args
         )
 
+        self.page_args = dict(
+            page_size=(self.pdf.page_width, self.pdf.page_height),
+            rotate_page=self.pdf.rotate_page, margin=self.pdf.margin
+        )
+
         self.style = style
 
         self.pdf.context.update(context)
@@ -316,7 +321,7 @@ class PDFDocument:
         while True:
             page_n = len(self.pdf.pages)
 
-            page_args = section_page_args.copy()
+            page_args = {**self.page_args, **section_page_args}
 
             running_sections = set(section.get('running_sections', []))
 
-- 
2.43.0


From 78f308b6ab2b98b151be09c03a1c103a5a396743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 43/68] fix: the order of the running sections depended on the
 hash seed

---
 pdfme/document.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 2e56923..67b7cc3 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -323,7 +323,7 @@ class PDFDocument:
 
             page_args = {**self.page_args, **section_page_args}
 
-            running_sections = set(section.get('running_sections', []))
+            running_sections = dict.fromkeys(section.get('running_sections', []))
 
             for range_dict in self.per_page:
                 if page_n in range_dict['pages']:
@@ -335,9 +335,10 @@ class PDFDocument:
                         })
                     if 'running_sections' in range_dict:
                         per_page_rs = range_dict['running_sections']
-                        running_sections -= set(per_page_rs.get('exclude', []))
+                        for name in per_page_rs.get('exclude', []):
+                            running_sections.pop(name, None)
                         running_sections.update(
-                            set(per_page_rs.get('include', []))
+                            dict.fromkeys(per_page_rs.get('include', []))
                         )
 
             self.pdf.setup_page(**page_args)
-- 
2.43.0


From ae2d30e0b51806aca94fdd0d1445ec86aa68ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 44/68] fix: the rectangle of a running section could not be
 None as documented

---
 pdfme/document.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/document.py b/pdfme/document.py
index 67b7cc3..ea9c414 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -276,6 +276,8 @@ class PDFDocument:
             if section.get('y') == 'bottom':
                 section['y'] = page_height - margin['bottom']
 
+            section = {k: v for k, v in section.items() if v is not None}
+
             width = section.get('width', (
                 page_width - margin['right'] - margin['left']
             ))
-- 
2.43.0


From 8220ac03c952e77ae982823947a678d09266f12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:04 +0000
Subject: [PATCH 45/68] fix: footnotes with the name of a style raised

---
 pdfme/document.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index ea9c414..ecdc83d 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -457,10 +457,11 @@ class PDFDocument:
         content = {'style': '$footnotes', 'content': []}
         for index, footnote in enumerate(page_footnotes):
             footnote = copy(footnote)
-            style = footnote.setdefault('style', {})
+            style = copy(process_style(footnote.get('style'), self.pdf))
             style.update(dict(
                 list_text=str(index + 1) + ' ', list_style='$footnote'
             ))
+            footnote['style'] = style
             content['content'].append(footnote)
 
         footnote_obj = self.pdf._create_content(
-- 
2.43.0


From 9c6b9ef02b626214bc63f87c3de9f16e0300be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:04 +0000
Subject: [PATCH 46/68] fix: footnotes got wrong numbers or raised when their
 room moved other marks

---
 pdfme/document.py | 106 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 75 insertions(+), 31 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index ecdc83d..ef4f917 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -381,39 +381,83 @@ class PDFDocument:
                 'children_memory': []
             }
 
-        self.section.run(height=self.height)
-        footnotes_obj = self._process_footnotes()
-
-        if footnotes_obj is None:
-            self.pdf._add_graphics([*self.section.fills,*self.section.lines])
-            self.pdf._add_parts(self.section.parts)
-            self.pdf.page._y -= self.section.current_height
-        else:
-            footnotes_height = footnotes_obj.current_height
-            if footnotes_height >= self.height - self.footnotes_margin - 20:
-                raise Exception(
-                    "footnotes are very large and don't fit in one page"
-                )
-            new_height = self.height - footnotes_obj.current_height \
-                - self.footnotes_margin
-
-            if section_state is not None:
-                self.section.set_state(**section_state)
-                self.section.finished = False
-            self.pdf._content(self.section, height=new_height)
-
+        # look for a height of the section that leaves room for the footnotes of
+        # the page, with the marks showing their numbers. It is between low and
+        # high, and best is the largest one found so far (0 if none)
+        low = best = tries = 0
+        height = high = self.height
+        while True:
+            numbers = self._get_footnotes_numbers()
+            self.section.run(height=height)
             footnotes_obj = self._process_footnotes()
-
+            graphics = [*self.section.fills, *self.section.lines]
+            drawn = self.section.finished or len(graphics) > 0 or any(
+                part['type'] != 'paragraph' or part['text_stream']
+                for part in self.section.parts
+            )
+            available = self.height
             if footnotes_obj is not None:
-                self.pdf.page._y = self.pdf.margin['bottom'] + footnotes_height
-                self.pdf.page.x = self.x
-
-                x_line = round(self.pdf.page.x, 3)
-                y_line = round(self.pdf.page._y + self.footnotes_margin/2, 3)
-                self.pdf.page.add(' q 0 G 0.5 w {} {} m {} {} l S Q'.format(
-                    x_line, y_line, x_line + 150, y_line
-                ))
-                self.pdf._content(footnotes_obj, height=self.height)
+                available -= self.footnotes_margin
+                available -= footnotes_obj.current_height
+                if not footnotes_obj.finished:
+                    available = 0
+
+            if height <= available + 1e-6 and tries <= 5 \
+                and (drawn or height == self.height):
+                if available - height < self.height / 4 or high - height < 20:
+                    if numbers == self._get_footnotes_numbers():
+                        break
+                    tries += 1
+                else:
+                    low = best = height
+                    high = min(high, available)
+                    height = (low + high) / 2
+            else:
+                if not drawn:
+                    low = height
+                    height = (low + high) / 2
+                else:
+                    high = height
+                    if high <= best or tries > 5:
+                        low = best = tries = 0
+                    height = available if low < available < high \
+                        else (low + high) / 2
+                if high - low < 20 and best > 0:
+                    height = best
+                elif high - low < 1:
+                    raise Exception(
+                        "footnotes are very large and don't fit in one page"
+                    )
+
+            self.section.set_state(**section_state)
+            self.section.finished = False
+
+        self.pdf._add_graphics(graphics)
+        self.pdf._add_parts(self.section.parts)
+        self.pdf.page._y -= self.section.current_height
+
+        if footnotes_obj is not None:
+            self.pdf.page._y = self.pdf.margin['bottom'] \
+                + footnotes_obj.current_height
+            self.pdf.page.x = self.x
+
+            x_line = round(self.pdf.page.x, 3)
+            y_line = round(self.pdf.page._y + self.footnotes_margin/2, 3)
+            self.pdf.page.add(' q 0 G 0.5 w {} {} m {} {} l S Q'.format(
+                x_line, y_line, x_line + 150, y_line
+            ))
+            self.pdf._content(footnotes_obj, height=self.height)
+
+    def _get_footnotes_numbers(self) -> list:
+        """Method that returns the numbers shown by the marks of the footnotes.
+
+        Returns:
+            list: the number of each footnote in the document.
+        """
+        return [
+            self.pdf.context['$footnote:' + str(index)]
+            for index in range(len(self.footnotes))
+        ]
 
     def _check_footnote(self, ids: dict, page_footnotes: list) -> None:
         """Method that extract the footnotes from the ids passed as argument,
-- 
2.43.0


From bc2dff902e84dc614eea87943c1b834b7e7835c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 47/68] fix: registered fonts were available only to the first
 document of a process

---
 pdfme/fonts.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 68ad665..2ab183d 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -80,7 +80,6 @@ class PDFFont(abc.ABC):
     """
 
     registered_fonts = {}
-    loaded_fonts = []
 
     def __init__(self, ref: str) -> None:
         self._ref = ref
@@ -411,6 +410,7 @@ class PDFFonts:
     """
     def __init__(self) -> None:
         self.fonts = {}
+        self.loaded = set()
         self.index = 1
         for font_family, modes in STANDARD_FONTS.items():
             self.fonts[font_family] = {}
@@ -434,17 +434,16 @@ class PDFFonts:
         if font_family in STANDARD_FONTS:
             family = self.fonts[font_family]
         else:
+            registered = PDFFont.registered_fonts
             font_type = (font_family, mode)
-            if font_type in PDFFont.registered_fonts:
-                if font_type not in PDFFont.loaded_fonts:
-                    self.load_font(PDFFont.registered_fonts[font_type],
-                        font_family,
-                        mode)
-                    PDFFont.loaded_fonts.append(font_type)
-                family = self.fonts[font_family]
-            else:
+            if font_type not in registered and font_type not in self.loaded:
+                font_type = (font_family, 'n')
+            if font_type in registered and font_type not in self.loaded:
+                self.load_font(registered[font_type], *font_type)
+            if font_family not in self.fonts:
                 raise ValueError('Unknown font family requested!')
-            
+            family = self.fonts[font_family]
+
         return family['n'] if mode not in family else family[mode]
 
     def load_font(self, path: str, font_family: str, mode: str='n') -> None:
@@ -460,6 +459,7 @@ class PDFFonts:
         if not font_family in self.fonts:
             self.fonts[font_family] = {'n': font}
         self.fonts[font_family][mode] = font
+        self.loaded.add((font_family, mode))
         self.index += 1
 
 from .parser import PDFObject
-- 
2.43.0


From cf4a5af49fe7ee28de77f123040b53a4a8dfd570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 48/68] fix: characters missing in a TrueType font raised

---
 pdfme/fonts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 2ab183d..d366f95 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -376,7 +376,7 @@ class PDFTrueTypeFont(PDFFont):
         })
 
     def encode_text(self, text: str):
-        return ''.join(as_hex(chr(self.cids2gids[ord(c)])) for c in text)
+        return ''.join(as_hex(chr(self.cids2gids.get(ord(c), 0))) for c in text)
 
     def compute_char_widths(self):
         glyph_set = self.glyph_set
@@ -384,13 +384,14 @@ class PDFTrueTypeFont(PDFFont):
         font = self.font
         scale = self.scale
 
-        widths = []
+        # the width of the glyph of the missing characters
+        widths = [0, [glyph_set['.notdef'].width * scale]]
         current_width_group = []
 
         prev_glyph_id = None
         for c in cmap:
             current_glyph_id = font.getGlyphID(cmap[c])
-            if not widths:
+            if prev_glyph_id is None:
                 widths.append(current_glyph_id)
                 prev_glyph_id = current_glyph_id
             elif (current_glyph_id - prev_glyph_id) != 1:
-- 
2.43.0


From 306104dcdeb809c18ee31dab144607e80845d4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 49/68] fix: text in TrueType fonts was not justified

---
 pdfme/text.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 56b947b..8631583 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -971,8 +971,18 @@ class PDFTextBase:
 
         if text != '':
             if part.state.font_family not in STANDARD_FONTS:
-                text = part.state.font.encode_text(''.join(part.words))
-                stream += ' ({})Tj'.format(text)
+                encode_text = part.state.font.encode_text
+                text = encode_text(''.join(part.words))
+                if tw == 0:
+                    stream += ' ({})Tj'.format(text)
+                else:
+                    # Tw has no effect in fonts with codes of 2 bytes
+                    space = -round(tw * 1000 / part.state.size, 3)
+                    stream += ' [{}]TJ'.format(' '.join(
+                        '({}){}'.format(
+                            encode_text(word), space if word == ' ' else ''
+                        ) for word in part.words
+                    ))
             else:
                 stream += ' ({})Tj'.format(text)
         return stream
-- 
2.43.0


From 21f9d3b5fd63d68c5ec7752434e9eb4621c944d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 50/68] fix: characters of TrueType fonts could be extracted as
 other characters

---
 pdfme/fonts.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index d366f95..24b74dd 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -37,17 +37,17 @@ STANDARD_FONTS = {
 
 def get_tounicode_cmap(cmap_mappings):
     '''Method returns cmap for Unicode mappings.'''
-    def cmap_hex_format(hex_str: str) -> str:
-        if hex_str.startswith('0x'):
-            hex_str = hex_str[2:]
-        if len(hex_str) != 4:
-            hex_str = hex_str.zfill(4)
-        return f'<{hex_str.upper()}>'
-
-    mappings = []
-    for (cid, gid) in cmap_mappings.items():
-        mappings.append(
-            f'{cmap_hex_format(hex(int(gid)))} {cmap_hex_format(hex(int(cid)))}')
+    # the first of the characters that share a glyph is the one extracted
+    gids2cids = {}
+    for cid, gid in sorted(cmap_mappings.items()):
+        gids2cids.setdefault(gid, cid)
+
+    mappings = [
+        f'<{gid:04X}> <{chr(cid).encode("utf-16-be", "surrogatepass").hex()}>'
+        for gid, cid in gids2cids.items()
+    ]
+    # a block can have 100 mappings at most
+    blocks = [mappings[i:i + 100] for i in range(0, len(mappings), 100)]
 
     return f'''/CIDInit /ProcSet findresource begin
         12 dict begin
@@ -62,9 +62,10 @@ def get_tounicode_cmap(cmap_mappings):
         1 begincodespacerange
         <0000> <FFFF>
         endcodespacerange
-        {len(mappings)} beginbfchar
-        {'\n'.join(mappings)}
-        endbfchar
+        {'\n'.join(
+            f'{len(block)} beginbfchar\n' + '\n'.join(block) + '\nendbfchar'
+            for block in blocks
+        )}
         endcmap
         CMapName currentdict /CMap defineresource pop
         end
-- 
2.43.0


From 74304d30f9cd2182e74c664b568cc8b0e63889c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 51/68] fix: the name of a TrueType font was not always its
 PostScript name

---
 pdfme/fonts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 24b74dd..5379eb3 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -1,4 +1,5 @@
 import abc
+import re
 from io import BytesIO
 from pathlib import Path
 
@@ -274,7 +275,8 @@ class PDFTrueTypeFont(PDFFont):
         Returns:
             dict: dict representing this font's "font descriptor".
         """
-        self._base_font = self.font['name'].names[6].toStr()
+        name = self.font['name'].getDebugName(6) or Path(self.filename).stem
+        self._base_font = re.sub(r'[^!-~]|[()<>\[\]{}/%#]', '', name)
         head = self.font["head"]
         self.units_per_em = head.unitsPerEm
         scale = self.scale = 1000 / self.units_per_em
-- 
2.43.0


From 5839ef687558ed2d3b09217de8463ac4f785cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 52/68] fix: the file of a TrueType font embedded depended on
 the current time

---
 pdfme/fonts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 5379eb3..bd9d85e 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -253,7 +253,7 @@ class PDFTrueTypeFont(PDFFont):
                 'pip install fonttools'
             )
         self.filename = str(Path(filename))
-        font = self.font = ttLib.TTFont(self.filename)
+        font = self.font = ttLib.TTFont(self.filename, recalcTimestamp=False)
 
         cmap = self.cmap = self.font['cmap'].getBestCmap()
 
-- 
2.43.0


From 01acc84242160857236834b8dbcc7a27ac60abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 53/68] fix: TrueType fonts without OS/2 table raised

---
 pdfme/fonts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index bd9d85e..451f220 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -309,7 +309,7 @@ class PDFTrueTypeFont(PDFFont):
             if hhea is None:
                 ascent = yMax
                 descent = yMin
-            capHeight = self.ascent
+            capHeight = ascent
 
         stemV = 50 + int(pow((usWeightClass / 65.0),2))
 
-- 
2.43.0


From b38dbde54c4ee1bf3186b5d6d0ddd258ac80b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 54/68] fix: glyphs of TrueType fonts whose number has a byte
 13 shown as others

---
 pdfme/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index eeb5be9..d6adcd4 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -441,7 +441,8 @@ def escape_string(text):
     Returns:
         str: Escaped text.
     '''
-    return text.replace('\\', '\\\\').replace('(', '\\(').replace(')', '\\)')
+    text = text.replace('\\', '\\\\').replace('(', '\\(').replace(')', '\\)')
+    return text.replace('\r', '\\r')
 
 from .color import PDFColor
 from .fonts import PDFFonts, PDFFont
-- 
2.43.0


From 1d405b71ca6db0129e1496db95d23305bad651c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 55/68] fix: TrueType fonts with more than 55296 glyphs raised

---
 pdfme/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index d6adcd4..2efafa2 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -430,7 +430,7 @@ def as_hex(text: str) -> str:
     Returns:
         str: The transformed text.
     """
-    return escape_string(text.encode('UTF-16-BE').decode('latin'))
+    return escape_string(text.encode('UTF-16-BE', 'surrogatepass').decode('latin'))
 
 def escape_string(text):
     '''Takes in a text and returns all special characters escaped.
-- 
2.43.0


From 707338928978a7c731be3dec68eac0f7e04e0eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 56/68] fix: widths of TrueType glyphs used by several
 characters were moved to others

---
 pdfme/fonts.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 451f220..2f4b967 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -388,24 +388,18 @@ class PDFTrueTypeFont(PDFFont):
         scale = self.scale
 
         # the width of the glyph of the missing characters
-        widths = [0, [glyph_set['.notdef'].width * scale]]
-        current_width_group = []
+        glyph_widths = {0: glyph_set['.notdef'].width * scale}
+        for c in cmap:
+            glyph_id = font.getGlyphID(cmap[c])
+            glyph_widths[glyph_id] = glyph_set[cmap[c]].width * scale
 
+        widths = []
         prev_glyph_id = None
-        for c in cmap:
-            current_glyph_id = font.getGlyphID(cmap[c])
-            if prev_glyph_id is None:
-                widths.append(current_glyph_id)
-                prev_glyph_id = current_glyph_id
-            elif (current_glyph_id - prev_glyph_id) != 1:
-                widths.append(current_width_group)
-                widths.append(current_glyph_id)
-                current_width_group = []
-                prev_glyph_id = current_glyph_id
-
-            current_width_group.append(glyph_set[cmap[c]].width * scale)
-
-        widths.append(current_width_group)
+        for glyph_id in sorted(glyph_widths):
+            if prev_glyph_id is None or glyph_id - prev_glyph_id != 1:
+                widths.extend([glyph_id, []])
+            widths[-1].append(glyph_widths[glyph_id])
+            prev_glyph_id = glyph_id
 
         return widths
 
-- 
2.43.0


From 06fbae69c6a215b8db0787de88bfa94404af8e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 57/68] fix: building a document changed the dicts it is
 described with

---
 pdfme/content.py  | 2 +-
 pdfme/document.py | 1 +
 pdfme/pdf.py      | 2 +-
 pdfme/utils.py    | 2 ++
 4 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index c01d798..4e8114f 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -183,7 +183,7 @@ class PDFContent:
         if not isinstance(content, dict):
             raise TypeError('content must be a dict: {}'.format(content))
 
-        self.content = content
+        self.content = copy(content)
         self.finished = False
         self.pdf_content_part = None
         self.setup(x, y, width, height)
diff --git a/pdfme/document.py b/pdfme/document.py
index ef4f917..b402d7a 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -157,6 +157,7 @@ class PDFDocument:
     """
     def __init__(self, document: dict, context: dict=None) -> None:
         context = {} if context is None else context
+        document = copy(document)
         style = copy(document.get('style', {}))
         style_args = {
             v: style[k] for k, v in STYLE_PROPS.items() if k in style
diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 03fb76b..19a8503 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -512,7 +512,7 @@ class PDF:
             if len(style_str) > 0:
                 style.update(parse_style_str(style_str[0], self.fonts))
             style.update(process_style(content.get('style'), self))
-            content['style'] = style
+            content = {**content, 'style': style}
         return content
 
     def _position_and_size(
diff --git a/pdfme/utils.py b/pdfme/utils.py
index 2efafa2..eb2796b 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -374,6 +374,8 @@ def copy(obj: Any) -> Any:
     """
     if isinstance(obj, list):
         return [copy(el) for el in obj]
+    elif type(obj) is tuple:
+        return tuple(copy(el) for el in obj)
     elif isinstance(obj, dict):
         return {k: copy(v) for k, v in obj.items()}
     else:
-- 
2.43.0


From aa005f247d7d707dbac1aa668b75648aa5dcf16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 58/68] fix: first line of a paragraph drawn again after
 restoring a later state

---
 pdfme/text.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 8631583..5fcc2c2 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -575,8 +575,7 @@ class PDFTextBase:
         """
         self.last_part = self.last_part_line = last_part
         self.last_word = self.last_word_line = last_word
-        if last_part == 0 and last_word == 0:
-            self.is_first_line = True
+        self.is_first_line = last_part == 0 and last_word == 0
 
     def setup(
         self, x: Number=None, y:Number=None, width: Number=None,
-- 
2.43.0


From 1a77990c14e8d4edfa9aea543c0278307de0ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 59/68] fix: pages were added without end when a line of text
 was higher than them

---
 pdfme/content.py | 13 +++++++++++--
 pdfme/pdf.py     |  4 ++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 4e8114f..0f79373 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -909,9 +909,18 @@ class PDFContentPart:
 
         if pdf_text.finished:
             return {'delayed': None, 'next': False}
+
+        remaining['state'] = pdf_text.get_state()
+        if pdf_text.current_height > 0:
+            remaining['tries'] = 0
         else:
-            remaining['state'] = pdf_text.get_state()
-            return {'delayed': remaining, 'next': True}
+            tries = element.get('tries', 0)
+            if tries >= 50:
+                raise Exception(
+                    'A line of a paragraph could not be fitted in the document'
+                )
+            remaining = self.count_try(remaining, tries)
+        return {'delayed': remaining, 'next': True}
 
     def process_image(
         self, element: dict, style: dict, add_parts: bool=True,
diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 19a8503..7a27ef3 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -707,6 +707,10 @@ class PDF:
                 self.page.content_height, self.page.margin_left,
                 self.page.margin_top
             )
+            if not pdf_text.finished and pdf_text.current_height == 0:
+                raise Exception(
+                    'A line of a paragraph could not be fitted in the document'
+                )
 
     def _default_content_style(self) -> dict:
         """This method returns a dict with the PDF default values used by
-- 
2.43.0


From 8fe2170ecfb1dc1ae9122043e9e0f48f6fbdce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 60/68] fix: tables without cells raised

---
 pdfme/table.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 88181a9..5941ef4 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -169,10 +169,7 @@ class PDFTable:
         self.fonts = fonts
         self.pdf = pdf
         self.finished = False
-        if len(content) == 0 or len(content[0]) == 0:
-            return
-
-        self.cols_count = len(content[0])
+        self.cols_count = len(content[0]) if len(content) > 0 else 0
         self.delayed = {}
         self.finished_cells = {}
 
@@ -189,7 +186,7 @@ class PDFTable:
             except ZeroDivisionError:
                 raise Exception('sum of widths must be greater than zero')
         else:
-            self.widths = [1 / self.cols_count] * self.cols_count
+            self.widths = [1 / max(self.cols_count, 1)] * self.cols_count
 
         self.style = {'cell_margin': 5, 'cell_fill': None}
         self.style.update(process_style(style, self.pdf))
@@ -490,6 +487,9 @@ class PDFTable:
             for i in range(self.cols_count + 1)
         ]
         self.current_height = 0
+        if self.cols_count == 0:
+            self.finished = True
+            return
 
         can_continue = True
         if len(self.delayed) > 0:
-- 
2.43.0


From c2c2e6e884e4f86c5b70a99b1197451a2e2562dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 61/68] fix: groups raised when the minimum height of their
 images was 0

---
 pdfme/content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 0f79373..0fdb92f 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -1241,7 +1241,7 @@ class PDFContentPart:
         new_images_size = max(
             images_size, images_size + self.y - self.max_y - 1e-6
         )
-        image_ratio = new_images_size / images_size if len(images) else 1
+        image_ratio = new_images_size / images_size if images_size > 0 else 1
         self.y = start_y
         self.starting = initial_starting
         self.last_bottom = initial_last_bottom
-- 
2.43.0


From 7bb1755ecd904a2eccbc9e5747fd4cf2dea30b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 62/68] fix: numbers as elements of a content box raised

---
 pdfme/content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 0fdb92f..bcf7bac 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -811,7 +811,7 @@ class PDFContentPart:
 
     def parse_element(self, element: ProcessElement) -> dict:
         if not isinstance(element, (dict, str, list, tuple)):
-            return str(element)
+            element = str(element)
         if isinstance(element, (str, list, tuple)):
             return {'.': element}
 
-- 
2.43.0


From 61e5e298eaebdf6cbc822e79db6528852fb1801d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 63/68] fix: elements exactly as high as the page did not fit
 because of rounding errors

---
 pdfme/content.py | 5 +++--
 pdfme/table.py   | 3 ++-
 pdfme/text.py    | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index bcf7bac..67df896 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -954,9 +954,10 @@ class PDFContentPart:
 
         can_add = False
         shrink_image = shrink_image and height > min_height
-        if height <= self.max_height and not shrink_image:
+        # a bit more than the available height, to absorb rounding errors
+        if height <= self.max_height + 1e-6 and not shrink_image:
             can_add = True
-        elif min_height <= self.max_height:
+        elif min_height <= self.max_height + 1e-6:
             can_add = True
             height = min_height if style.get('shrink', 0) else self.max_height
             new_width = height * pdf_image.width / pdf_image.height
diff --git a/pdfme/table.py b/pdfme/table.py
index 5941ef4..a0035e7 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -943,7 +943,8 @@ class PDFTable:
 
         real_height = 0
         finished = False
-        if img_height <= height:
+        # a bit more than the available height, to absorb rounding errors
+        if img_height <= height + 1e-6:
             real_height = img_height
             self.parts.append({
                 'type': 'image', 'pdf_image': pdf_image,
diff --git a/pdfme/text.py b/pdfme/text.py
index 5fcc2c2..c158acc 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -780,7 +780,8 @@ class PDFTextBase:
         else:
             self.first_line_added = True
 
-        if line_height + self.current_height > self.height:
+        # a bit more than the available height, to absorb rounding errors
+        if line_height + self.current_height > self.height + 1e-6:
             self.last_part = self.last_part_line
             self.last_word = self.last_word_line
             return False
-- 
2.43.0


From c485e5debd4ffed9458711216ece47df0f1c93fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:26 +0000
Subject: [PATCH 64/68] fix: JPEG images given as file objects that were not at
 their start raised

---
 pdfme/image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfme/image.py b/pdfme/image.py
index e1ace2f..b9aee4c 100644
--- a/pdfme/image.py
+++ b/pdfme/image.py
@@ -92,6 +92,7 @@ class PDFImage:
                 image.
         """
         adobe = False
+        bytes_.seek(0)
         try:
             while True:
                 markerHigh, markerLow = struct.unpack("BB", bytes_.read(2))
-- 
2.43.0


From 70afa324b225d2ee8a4945f6539384b7c3c4ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:23 +0000
Subject: [PATCH 65/68] fix: Symbol and ZapfDingbats keep their own encoding

---
 pdfme/fonts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 2f4b967..1c959a6 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -184,8 +184,7 @@ class PDFStandardFont(PDFFont):
         font = base.add({
             'Type': b'/Font',
             'Subtype': b'/Type1',
-            'BaseFont': subs('/{}', self.base_font),
-            'Encoding': b'/WinAnsiEncoding'
+            'BaseFont': subs('/{}', self.base_font)
         })
         if self.base_font not in ['Symbol', 'ZapfDingbats']:
             font['Encoding'] = b'/WinAnsiEncoding'
-- 
2.43.0


From 30a0fae6f3b21a2aefd869219ceb6197d5dfbe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:23 +0000
Subject: [PATCH 66/68] fix: paragraphs added with PDF.text use the line height
 and the indent of the PDF

---
 pdfme/pdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 7a27ef3..0edf0c7 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -557,7 +557,7 @@ class PDF:
 
     def _create_text(
         self, content: TextType, width: Number=None, height: Number=None,
-        text_align: str=None, line_height: Number=1.1, indent: Number=0,
+        text_align: str=None, line_height: Number=None, indent: Number=None,
         list_text: str=None, list_indent: Number=None, list_style: dict=None
     ) -> 'PDFText':
         """Method to create a paragraph.
@@ -653,7 +653,7 @@ class PDF:
     def _text(
         self, content: Union[TextType, 'PDFText'], width: Number=None,
         height: Number=None, x: Number=None, y: Number=None,
-        text_align: str=None, line_height: Number=1.1, indent: Number=0,
+        text_align: str=None, line_height: Number=None, indent: Number=None,
         list_text: str=None, list_indent: Number=None, list_style: dict=None,
         move: str='bottom'
     ) -> 'PDFText':
@@ -685,8 +685,8 @@ class PDF:
         return pdf_text
 
     def text(
-        self, content: TextType, text_align: str=None, line_height: Number=1.1,
-        indent: Number=0, list_text: str=None, list_indent: Number=None,
+        self, content: TextType, text_align: str=None, line_height: Number=None,
+        indent: Number=None, list_text: str=None, list_indent: Number=None,
         list_style: dict=None
     ) -> None:
         """Method to create and add a paragraph to this document. This method
-- 
2.43.0


From 61ad6fc355a0a77fb6c8de8d702cf18c31ef44f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:41 +0000
Subject: [PATCH 67/68] fix: lines after a line break leave room for text
 lowered in the line above

---
 pdfme/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index c158acc..d49a63a 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -670,11 +670,12 @@ class PDFTextBase:
                 if part['type'] == 'br':
                     self.last_part_added = part_index + 1
                     self.last_word_added = 0
+                    line = self.current_line
                     continue_ = self.add_current_line(True)
                     self.current_line = PDFTextLine(
                         self.fonts,
                         self.width - (self.list_indent if self.list_text else 0),
-                        self.text_align, self.line_height
+                        self.text_align, self.line_height + line.bottom
                     )
                     if not continue_:
                         return self.result
-- 
2.43.0


From e0d12fd015a525b67c79e2796fc868c130eab1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:16 +0000
Subject: [PATCH 68/68] fix: a table whose first row is empty is refused, not
 left out

---
 pdfme/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index a0035e7..8eb42d3 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -169,7 +169,7 @@ class PDFTable:
         self.fonts = fonts
         self.pdf = pdf
         self.finished = False
-        self.cols_count = len(content[0]) if len(content) > 0 else 0
+        self.cols_count = next((len(row) for row in content if len(row)), 0)
         self.delayed = {}
         self.finished_cells = {}
 
-- 
2.43.0

