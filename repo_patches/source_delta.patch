From dea99f448998475954dcaf15191abdf814b0e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 01/63] fix: accept "b:1", "u:0" and "i:0" in style strings

---
 pdfme/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 45f12ab..03bf1bb 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -196,7 +196,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                         'Style element "{}" must be 0 or 1: {}'
                         .format(attr, value)
                     )
-            if attr == "f":
+            elif attr == "f":
                 if value not in fonts.fonts:
                     font_found = False
 
-- 
2.43.0


From 38fb81e76c8fbd97f7334e46d6a27e29bcece12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 02/63] fix: parse_margin fails with a tuple of three elements

---
 pdfme/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 03bf1bb..a009954 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -128,7 +128,7 @@ def parse_margin(margin: MarginType) -> dict:
         elif len(margin) == 2:
             margin = margin * 2
         elif len(margin) == 3:
-            margin = margin + [margin[1]]
+            margin = list(margin) + [margin[1]]
         elif len(margin) > 4:
             margin = margin[0:4]
 
-- 
2.43.0


From 7bafe95e38373573d59de7cfb41dc102d6234839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 03/63] fix: accept open ended ranges and empty steps in range
 strings

---
 pdfme/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index a009954..e0a00af 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -1,4 +1,5 @@
 import re
+import sys
 from typing import Any, Iterable, Union
 
 page_sizes = {
@@ -411,9 +412,11 @@ def parse_range_string(range_str: str) -> MuiltiRange:
             first = range_parts[0].strip()
             range_parts[0] = 0 if first == '' else int(first)
             if len(range_parts) > 1:
-                range_parts[1] = int(range_parts[1].strip())
+                last = range_parts[1].strip()
+                range_parts[1] = sys.maxsize if last == '' else int(last)
             if len(range_parts) > 2:
-                range_parts[2] = int(range_parts[2].strip())
+                step = range_parts[2].strip()
+                range_parts[2] = 1 if step == '' else int(step)
             multi_range.add(*range_parts)
 
     return multi_range
-- 
2.43.0


From 9bf29057a61f529a12b9d8015ab1edf3b58bbdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 04/63] fix: escape carriage returns in PDF strings, readers
 turn them into line feeds

---
 pdfme/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index e0a00af..5a8ae6b 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -441,7 +441,8 @@ def escape_string(text):
     Returns:
         str: Escaped text.
     '''
-    return text.replace('\\', '\\\\').replace('(', '\\(').replace(')', '\\)')
+    return text.replace('\\', '\\\\').replace('(', '\\(').replace(
+        ')', '\\)').replace('\r', '\\r')
 
 from .color import PDFColor
 from .fonts import PDFFonts, PDFFont
-- 
2.43.0


From 02bf6f90a30413b89087ce65a01701790e2990b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 05/63] fix: escape backslashes and carriage returns of str
 objects

---
 pdfme/parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 4aafb09..8529bd0 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -1,4 +1,3 @@
-import re
 from typing import Iterable, Union
 class PDFObject:
     """A class that represents a PDF object.
@@ -82,7 +81,7 @@ def parse_obj(obj: ObjectType) -> bytes:
     elif isinstance(obj, (int, float)):
         return str(obj).encode('latin')
     elif isinstance(obj, str):
-        return ('(' + re.sub(r'([()])', r'\\\1', obj) + ')').encode('latin')
+        return ('(' + escape_string(obj) + ')').encode('latin')
 
 
 def parse_dict(obj: dict) -> bytes:
@@ -165,4 +164,4 @@ def parse_stream(obj: dict) -> bytes:
     return ret
 
 from .encoders import encode_stream
-from .utils import subs
+from .utils import escape_string, subs
-- 
2.43.0


From eab12b8d56f2f4c34fd4df27674d8deaeb2077c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 06/63] fix: write floats without exponents, PDF does not
 support them

---
 pdfme/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 8529bd0..488f9ea 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -1,3 +1,4 @@
+from decimal import Decimal
 from typing import Iterable, Union
 class PDFObject:
     """A class that represents a PDF object.
@@ -78,7 +79,10 @@ def parse_obj(obj: ObjectType) -> bytes:
         return obj
     elif isinstance(obj, bool):
         return b'true' if obj else b'false'
-    elif isinstance(obj, (int, float)):
+    elif isinstance(obj, float):
+        # PDF doesn't support numbers with exponents
+        return format(Decimal(repr(obj)), 'f').encode('latin')
+    elif isinstance(obj, int):
         return str(obj).encode('latin')
     elif isinstance(obj, str):
         return ('(' + escape_string(obj) + ')').encode('latin')
-- 
2.43.0


From 9f193057618e5a57684a943385f5a0ae24017273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 07/63] fix: load registered fonts once per document instead of
 once per process

---
 pdfme/fonts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 68ad665..e051635 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -80,7 +80,6 @@ class PDFFont(abc.ABC):
     """
 
     registered_fonts = {}
-    loaded_fonts = []
 
     def __init__(self, ref: str) -> None:
         self._ref = ref
@@ -411,6 +410,7 @@ class PDFFonts:
     """
     def __init__(self) -> None:
         self.fonts = {}
+        self.loaded_fonts = []
         self.index = 1
         for font_family, modes in STANDARD_FONTS.items():
             self.fonts[font_family] = {}
@@ -436,11 +436,11 @@ class PDFFonts:
         else:
             font_type = (font_family, mode)
             if font_type in PDFFont.registered_fonts:
-                if font_type not in PDFFont.loaded_fonts:
+                if font_type not in self.loaded_fonts:
                     self.load_font(PDFFont.registered_fonts[font_type],
                         font_family,
                         mode)
-                    PDFFont.loaded_fonts.append(font_type)
+                    self.loaded_fonts.append(font_type)
                 family = self.fonts[font_family]
             else:
                 raise ValueError('Unknown font family requested!')
-- 
2.43.0


From 382780b3100c5cd73844cff97e49944a1b451194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 08/63] fix: widths of glyphs shared by several characters were
 given to other glyphs

---
 pdfme/fonts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index e051635..d61796f 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -392,13 +392,12 @@ class PDFTrueTypeFont(PDFFont):
             current_glyph_id = font.getGlyphID(cmap[c])
             if not widths:
                 widths.append(current_glyph_id)
-                prev_glyph_id = current_glyph_id
             elif (current_glyph_id - prev_glyph_id) != 1:
                 widths.append(current_width_group)
                 widths.append(current_glyph_id)
                 current_width_group = []
-                prev_glyph_id = current_glyph_id
 
+            prev_glyph_id = current_glyph_id
             current_width_group.append(glyph_set[cmap[c]].width * scale)
 
         widths.append(current_width_group)
-- 
2.43.0


From c75e4693ace1213bf6e9a738c5a529a9c021fdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 09/63] fix: show .notdef glyph for characters missing in a
 font instead of failing

---
 pdfme/fonts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index d61796f..d5763e1 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -376,7 +376,7 @@ class PDFTrueTypeFont(PDFFont):
         })
 
     def encode_text(self, text: str):
-        return ''.join(as_hex(chr(self.cids2gids[ord(c)])) for c in text)
+        return ''.join(as_hex(chr(self.cids2gids.get(ord(c), 0))) for c in text)
 
     def compute_char_widths(self):
         glyph_set = self.glyph_set
-- 
2.43.0


From 6985993c22dee0ff3b0490fe7c7ad2bcf264ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 10/63] fix: Symbol and ZapfDingbats must use their built-in
 encoding

---
 pdfme/fonts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index d5763e1..3c4f2d7 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -182,8 +182,7 @@ class PDFStandardFont(PDFFont):
         font = base.add({
             'Type': b'/Font',
             'Subtype': b'/Type1',
-            'BaseFont': subs('/{}', self.base_font),
-            'Encoding': b'/WinAnsiEncoding'
+            'BaseFont': subs('/{}', self.base_font)
         })
         if self.base_font not in ['Symbol', 'ZapfDingbats']:
             font['Encoding'] = b'/WinAnsiEncoding'
-- 
2.43.0


From df46e2b7463045318025cc71828b5377506ab7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 11/63] fix: use the PostScript name of the font as its base
 font name

---
 pdfme/fonts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 3c4f2d7..421a1d9 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -272,7 +272,7 @@ class PDFTrueTypeFont(PDFFont):
         Returns:
             dict: dict representing this font's "font descriptor".
         """
-        self._base_font = self.font['name'].names[6].toStr()
+        self._base_font = self.font['name'].getDebugName(6)
         head = self.font["head"]
         self.units_per_em = head.unitsPerEm
         scale = self.scale = 1000 / self.units_per_em
-- 
2.43.0


From db537f5cc608d2559a6881e1cc9e910e8a65cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 12/63] fix: ToUnicode entries of characters outside the BMP
 must be UTF-16 surrogate pairs

---
 pdfme/fonts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 421a1d9..176ed5e 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -46,8 +46,9 @@ def get_tounicode_cmap(cmap_mappings):
 
     mappings = []
     for (cid, gid) in cmap_mappings.items():
+        char_hex = chr(int(cid)).encode('UTF-16-BE').hex()
         mappings.append(
-            f'{cmap_hex_format(hex(int(gid)))} {cmap_hex_format(hex(int(cid)))}')
+            f'{cmap_hex_format(hex(int(gid)))} <{char_hex.upper()}>')
 
     return f'''/CIDInit /ProcSet findresource begin
         12 dict begin
-- 
2.43.0


From ff06ed3de01c4a2144488682ec448c7f44270957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 13/63] fix: ToUnicode bfchar blocks can not have more than 100
 entries

---
 pdfme/fonts.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 176ed5e..2e19402 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -50,6 +50,13 @@ def get_tounicode_cmap(cmap_mappings):
         mappings.append(
             f'{cmap_hex_format(hex(int(gid)))} <{char_hex.upper()}>')
 
+    # a bfchar block can have no more than 100 entries
+    blocks = [mappings[i:i + 100] for i in range(0, len(mappings), 100)]
+    bfchar = '\n'.join(
+        '{} beginbfchar\n{}\nendbfchar'.format(len(block), '\n'.join(block))
+        for block in blocks
+    )
+
     return f'''/CIDInit /ProcSet findresource begin
         12 dict begin
         begincmap
@@ -63,9 +70,7 @@ def get_tounicode_cmap(cmap_mappings):
         1 begincodespacerange
         <0000> <FFFF>
         endcodespacerange
-        {len(mappings)} beginbfchar
-        {'\n'.join(mappings)}
-        endbfchar
+        {bfchar}
         endcmap
         CMapName currentdict /CMap defineresource pop
         end
-- 
2.43.0


From cc6526bf894f24c917b0a094811f88ddffeb1257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 14/63] fix: text was lost or repeated when running a paragraph
 from a restored state

---
 pdfme/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 7e05300..a864c7e 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -607,6 +607,9 @@ class PDFTextBase:
             self.fonts, line_width, self.text_align, self.line_height
         )
 
+        self.last_part_added = self.last_part_line = self.last_part
+        self.last_word_added = self.last_word_line = self.last_word
+
         self.last_indent = 0
         self.last_state = self.last_factor = self.last_fill = None
         self.last_color = self.last_stroke_width = None
-- 
2.43.0


From 9440dd63dc84b0888c21a10b7471d44c5d44025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 15/63] fix: first line indent and list text were lost when a
 paragraph was run from the beginning again

---
 pdfme/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index a864c7e..3fdfae8 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -601,6 +601,7 @@ class PDFTextBase:
         self.current_line_used_fonts = set()
         self.current_height = 0
         self.lines = []
+        self.is_first_line = self.last_part == 0 and self.last_word == 0
 
         line_width = self.width - (self.indent if self.is_first_line else 0)
         self.current_line = PDFTextLine(
-- 
2.43.0


From 2a8bee0e80b142cf9538d6059c312f5d13e4aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 16/63] fix: lines of list paragraphs were too wide after a
 line break or in a new rectangle

---
 pdfme/text.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 3fdfae8..facbc5c 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -604,6 +604,8 @@ class PDFTextBase:
         self.is_first_line = self.last_part == 0 and self.last_word == 0
 
         line_width = self.width - (self.indent if self.is_first_line else 0)
+        if self.list_setup_done:
+            line_width -= self.list_indent
         self.current_line = PDFTextLine(
             self.fonts, line_width, self.text_align, self.line_height
         )
@@ -648,8 +650,11 @@ class PDFTextBase:
                     self.last_part_added = part_index + 1
                     self.last_word_added = 0
                     continue_ = self.add_current_line(True)
+                    line_width = self.width - (
+                        self.list_indent if self.list_setup_done else 0
+                    )
                     self.current_line = PDFTextLine(
-                        self.fonts, self.width, self.text_align,
+                        self.fonts, line_width, self.text_align,
                         self.line_height
                     )
                     if not continue_:
-- 
2.43.0


From 12a278fef780c0b00ec861fde476df3f6c2b27ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 17/63] fix: the line before the last one was not justified
 when the last line had one word

---
 pdfme/text.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index facbc5c..ed118cc 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -709,8 +709,6 @@ class PDFTextBase:
                 for w in re.split('( +)', words)
                 if w != ''
             ]
-        is_last_part = part_index == len(self.content) - 1
-
         for word_index in range(self.last_word, len(words)):
             word = words[word_index]
             ans = self.current_line.add_word(word)
@@ -718,9 +716,7 @@ class PDFTextBase:
                 self.last_part_added = part_index
                 self.last_word_added = word_index + 1
             elif ans['status'] == 'finished':
-                continue_ = self.add_current_line(
-                    is_last_part and word_index == len(words) - 1
-                )
+                continue_ = self.add_current_line()
                 ans['new_line'].max_width = self.width - (
                     self.list_indent if self.list_text else 0
                 )
-- 
2.43.0


From b96464f3e84e77b9bbe3138371e83d3b24d2e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 18/63] fix: the last line of a justified paragraph could be
 wider than the paragraph

---
 pdfme/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index ed118cc..8ab76c8 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -899,6 +899,8 @@ class PDFTextBase:
         self.y_ -= full_line_height
 
         factor = 1 if ignore_factor else factor_width / spaces_width
+        if is_last and self.text_align == 'j' and spaces_width != 0:
+            factor = min(1, factor_width / spaces_width)
 
         for part in line.line_parts:
             text = self.clean_words(part.words)
-- 
2.43.0


From 7954767c20c387945749d6fb4d7389e48888d63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 19/63] fix: the height of a list text bigger than its line was
 not added to the height of the paragraph

---
 pdfme/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 8ab76c8..95b2673 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -744,6 +744,8 @@ class PDFTextBase:
             )
 
         line_height = self.current_line.height
+        if self.is_first_line and self.list_text:
+            line_height = max(line_height, self.list_state.size)
         if self.first_line_added:
             line_height *= self.line_height
         else:
-- 
2.43.0


From 021cabdb1826845b033eca317167dbf1df68f58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 20/63] fix: horizontal position of lines of indented, list and
 resumed paragraphs

---
 pdfme/text.py | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 95b2673..3297b13 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -468,7 +468,6 @@ class PDFTextBase:
         self.content = content
         self.finished = False
         self.is_first_line = True
-        self.correct_indent = True
         self.list_setup_done = False
 
     @property
@@ -821,33 +820,26 @@ class PDFTextBase:
         """
         words_width, spaces_width = line.get_widths()
         x = self.list_indent if self.list_text else 0
+        if self.is_first_line:
+            x += self.indent
         line_height = line.height
         full_line_height = line_height
         ignore_factor = self.text_align != 'j' or is_last or spaces_width == 0
         factor_width = self.width - words_width - x
-        adjusted_indent = 0
         if self.text_align in ['r', 'c']:
-            indent = self.width - words_width - spaces_width
+            indent = factor_width - spaces_width
             if self.text_align == 'c':
                 indent /= 2
             x += indent
-            adjusted_indent = indent - self.last_indent
-            self.last_indent = indent
+        adjusted_indent = round(x - self.last_indent, 3)
+        self.last_indent = x
 
         if not self.started:
             self.started = True
             if self.is_first_line:
-                factor_width -= self.indent
-                x += self.indent
                 self.is_first_line = False
 
-                first_indent = (
-                    adjusted_indent if self.text_align in ['r', 'c']
-                    else self.indent
-                )
-
                 if self.list_text:
-                    first_indent += self.list_indent
                     if self.list_state.size > full_line_height:
                         full_line_height = self.list_state.size
 
@@ -875,27 +867,20 @@ class PDFTextBase:
                         self.list_state.compare(self.last_state),
                         (font.encode_text(self.list_text) if
                             font else self.list_text),
-                        first_indent
+                        adjusted_indent
                     )
                 else:
                     self.text += ' {} -{} Td'.format(
-                        round(first_indent, 3), round(full_line_height, 3)
+                        adjusted_indent, round(full_line_height, 3)
                     )
             else:
-                first_indent = adjusted_indent
-                if self.list_text:
-                    first_indent += self.list_indent
                 self.text += ' {} -{} Td'.format(
-                    round(first_indent, 3), round(full_line_height, 3)
+                    adjusted_indent, round(full_line_height, 3)
                 )
         else:
-            if self.correct_indent:
-                self.correct_indent = False
-                adjusted_indent -= self.indent
-
             full_line_height *= self.line_height
 
-            self.text += ' {} -{} Td'.format(round(adjusted_indent, 3),
+            self.text += ' {} -{} Td'.format(adjusted_indent,
                                         round(full_line_height, 3))
 
         self.y_ -= full_line_height
-- 
2.43.0


From ca2f0a5a2ee690b7e394772a28c7d9663217f3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 21/63] fix: list text was encoded with a font different from
 the selected one

---
 pdfme/text.py | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 3297b13..b1197ae 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -843,24 +843,9 @@ class PDFTextBase:
                     if self.list_state.size > full_line_height:
                         full_line_height = self.list_state.size
 
-                    style = self.list_style
-                    font_family = style.get('f', None)
-                    if not font_family:
-                        current_line_style = self.current_line.line_parts[0].style
-                        font_family = current_line_style.get('f', None)
-
                     font = None
-                    if font_family not in STANDARD_FONTS:
-                        mode = 'n'
-                        if 'b' in style:
-                            mode = 'b'
-                        if 'i' in style:
-                            if mode == 'b':
-                                mode += 'i'
-                            else:
-                                mode = 'i'
-
-                        font = self.fonts.get_font(font_family, mode)
+                    if self.list_state.font_family not in STANDARD_FONTS:
+                        font = self.list_state.font
 
                     self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
                         round(full_line_height, 3),
-- 
2.43.0


From 81c58c30346c776a04f12dffa11046b7dc5efd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 22/63] fix: escape list text

---
 pdfme/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index b1197ae..10739a8 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -850,8 +850,8 @@ class PDFTextBase:
                     self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
                         round(full_line_height, 3),
                         self.list_state.compare(self.last_state),
-                        (font.encode_text(self.list_text) if
-                            font else self.list_text),
+                        (font.encode_text(str(self.list_text)) if
+                            font else self.clean_words([str(self.list_text)])),
                         adjusted_indent
                     )
                 else:
-- 
2.43.0


From 598479462d1b9bd19161e72b5b3223db3ec7a721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 23/63] fix: font of list text was missing in the page when the
 first line was moved to another page

---
 pdfme/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 10739a8..dced1d4 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -840,6 +840,9 @@ class PDFTextBase:
                 self.is_first_line = False
 
                 if self.list_text:
+                    self.used_fonts.add((
+                        self.list_state.font_family, self.list_state.font_mode
+                    ))
                     if self.list_state.size > full_line_height:
                         full_line_height = self.list_state.size
 
-- 
2.43.0


From a004b68c03c9c2dfd8509d6bfd21f520144f5899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 24/63] fix: escape carriage returns in paragraphs

---
 pdfme/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index dced1d4..16bd0a7 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -911,7 +911,7 @@ class PDFTextBase:
 
         text = ''.join(word for word in words)
         if text != '':
-            text = text.replace('\\',r'\\').replace('(','\\(').replace(')','\\)')
+            text = escape_string(text)
         return text
 
     def output_text(self, part: PDFTextLinePart, text, factor: Number=1) -> str:
@@ -1337,4 +1337,6 @@ class PDFText(PDFTextBase):
 from .color import PDFColor
 from .fonts import PDFFonts, STANDARD_FONTS
 from .pdf import PDF
-from .utils import get_paragraph_stream, parse_style_str, process_style, copy
+from .utils import (
+    escape_string, get_paragraph_stream, parse_style_str, process_style, copy
+)
-- 
2.43.0


From 12edc38eca1978fa3416060f8cd1d03afc825bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 25/63] fix: text of added fonts was escaped twice and encoded
 with a font different from the selected one

---
 pdfme/text.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 16bd0a7..f8d71db 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -940,21 +940,11 @@ class PDFTextBase:
             self.last_factor = tw
 
         if text != '':
-            style = part.style
-            if ((font_family := style.get('f', None)) and 
-                font_family not in STANDARD_FONTS):
-            
-                mode = 'n'
-                if 'b' in style:
-                    mode = 'b'
-                if 'i' in style:
-                    if mode == 'b':
-                        mode += 'i'
-                    else:
-                        mode = 'i'
-
-                font = part.fonts.get_font(font_family, mode)
-                stream += ' ({})Tj'.format(font.encode_text(text))
+            if part.state.font_family not in STANDARD_FONTS:
+                # the text is not escaped here, this is done by encode_text
+                stream += ' ({})Tj'.format(
+                    part.state.font.encode_text(''.join(part.words))
+                )
             else:
                 stream += ' ({})Tj'.format(text)
         return stream
-- 
2.43.0


From c77ce0df5970d35c2401ec8a730612551c7047cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 26/63] fix: justify text of added fonts, word spacing does not
 apply to them

---
 pdfme/text.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index f8d71db..cc704bd 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -942,9 +942,18 @@ class PDFTextBase:
         if text != '':
             if part.state.font_family not in STANDARD_FONTS:
                 # the text is not escaped here, this is done by encode_text
-                stream += ' ({})Tj'.format(
-                    part.state.font.encode_text(''.join(part.words))
-                )
+                encode = part.state.font.encode_text
+                words = ''.join(part.words)
+                if tw == 0:
+                    stream += ' ({})Tj'.format(encode(words))
+                else:
+                    # Tw has no effect on the 2 byte codes of added fonts
+                    pieces = words.split(' ')
+                    space = ' {} '.format(round(-tw * 1000 / part.state.size, 3))
+                    stream += ' [{}]TJ'.format(space.join([
+                        *['({})'.format(encode(p + ' ')) for p in pieces[:-1]],
+                        '({})'.format(encode(pieces[-1]))
+                    ]))
             else:
                 stream += ' ({})Tj'.format(text)
         return stream
-- 
2.43.0


From 845e64c1906d5fe0265f3cc291b20de1354c5fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 27/63] fix: list text used the word spacing of the previous
 paragraph

---
 pdfme/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index cc704bd..ea3cd0a 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -850,7 +850,8 @@ class PDFTextBase:
                     if self.list_state.font_family not in STANDARD_FONTS:
                         font = self.list_state.font
 
-                    self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
+                    self.last_factor = 0
+                    self.text += ' 0 -{} Td{} 0 Tw ({})Tj {} 0 Td'.format(
                         round(full_line_height, 3),
                         self.list_state.compare(self.last_state),
                         (font.encode_text(str(self.list_text)) if
-- 
2.43.0


From 0c77b048a7170c0b52eed4a31d0de65d502492e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 28/63] fix: delayed cells were not restored by set_state of
 tables

---
 pdfme/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index ae4f59e..10f5686 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -245,8 +245,8 @@ class PDFTable:
         """
         if current_index is not None:
             self.current_index = current_index
-        elif delayed is not None:
-            self.delayed = delayed
+        if delayed is not None:
+            self.delayed = copy(delayed)
 
     def set_default_border(self) -> None:
         """Method to create attribute ``default_border`` containing the default
-- 
2.43.0


From 683ab9d3ce1827b82d649ce873f989fe87442bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 29/63] fix: borders and fills of discarded table attempts were
 drawn in content boxes with columns

---
 pdfme/content.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 983f1ed..cf8c38d 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -388,12 +388,20 @@ class PDFContentPart:
         self.delayed = copy(self.section_delayed) # current delayed elements
         self.will_reset = False
         self.resetting = False
-        self.parts_index = len(self.p.parts)
+        self.save_output_indexes()
 
         self.minim_diff_last = None
         self.minim_diff = None
         self.minim_forward = None
 
+    def save_output_indexes(self) -> None:
+        """Method to save the amount of parts, lines and fills that should be
+        kept if this element is resetted.
+        """
+        self.parts_index = len(self.p.parts)
+        self.lines_index = len(self.p.lines)
+        self.fills_index = len(self.p.fills)
+
     def get_state(self) -> dict:
         """Method to get the current state of this content box. This can be used
         later in method :meth:`pdfme.content.PDFContentPart.set_state` to
@@ -649,6 +657,8 @@ class PDFContentPart:
 
         self.will_reset = False
         self.p.parts = self.p.parts[:self.parts_index]
+        self.p.lines = self.p.lines[:self.lines_index]
+        self.p.fills = self.p.fills[:self.fills_index]
         self.go_to_beginning()
 
         if self.minim_diff is None:
@@ -726,7 +736,7 @@ class PDFContentPart:
                     return ret
                 self.min_y = ret['min_y']
                 self.min_x = ret['min_x']
-                self.parts_index = len(self.p.parts)
+                self.save_output_indexes()
                 self.go_to_beginning()
                 return 'retry' if children_memory is None else ret
         else:
-- 
2.43.0


From 398aa2e6ec4136720b5039431286d3dc003d3d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 30/63] fix: labels in paragraphs with more than one page
 pointed to the last page

---
 pdfme/pdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 6e2c145..aa919e3 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -600,6 +600,9 @@ class PDF:
             if id_.startswith('$label:'):
                 d = rects[0]
                 x_ref = x + d[0]
+                # a paragraph can be in more than one page
+                if id_[7:] in self.dests:
+                    continue
                 self.dests[id_[7:]] = [
                     self.page.page.id, b'/XYZ', round(x_ref, 3),
                     round(y + d[3], 3), round(x_ref/self.page.width, 3) + 1
-- 
2.43.0


From b4bb3e147d3461a1ea8f8266991f10983f61cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 31/63] fix: outlines in paragraphs with more than one page
 were repeated

---
 pdfme/pdf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index aa919e3..5b0db73 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -170,6 +170,7 @@ class PDF:
         self.pages = []
         self.running_sections = []
         self.outlines = []
+        self.outlines_ids = set()
 
         self.base = PDFBase()
         self.root = self.base.add({ 'Type': b'/Catalog'})
@@ -633,6 +634,10 @@ class PDF:
                         ]
                     )
             elif id_.startswith('$outline:'):
+                # a paragraph can be in more than one page
+                if id_ in self.outlines_ids:
+                    continue
+                self.outlines_ids.add(id_)
                 outline_data = json.loads(id_[9:])
                 outline = self.outlines
                 for _ in range(outline_data['level'] - 1):
-- 
2.43.0


From e22b7ca667076f4a5385a91dd0a4672425b2145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 32/63] fix: Count of closed outlines is the amount of its
 children

---
 pdfme/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 5b0db73..e133284 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -1044,7 +1044,7 @@ class PDF:
                     count += count_
                     obj['Count'] = count_
                 else:
-                    obj['Count'] = -1
+                    obj['Count'] = -count_
 
         parent['Last'] = obj.id
         return count
-- 
2.43.0


From 041fad14c391f847e9fdae6b814b5c75d38c9a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 33/63] fix: parts of tables and content boxes moved the cursor
 of the page

---
 pdfme/pdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index e133284..7df5d0f 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -906,6 +906,7 @@ class PDF:
         Args:
             parts (list, tuple): the iterable just explained.
         """
+        x, y = self.page.x, self.page._y
         for part in parts:
             part = part.copy()
             type_ = part.pop('type')
@@ -913,6 +914,8 @@ class PDF:
                 self._add_text(**part)
             elif type_ == 'image':
                 self.add_image(**part)
+        # the parts have absolute positions and don't move the cursor
+        self.page.x, self.page._y = x, y
 
     def _build_pages_tree(self, page_list:list, first_level:bool=True) -> None:
         """Method to build the PDF pages tree.
-- 
2.43.0


From 9410f88f2771413949972d5dbce326f9272529c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 34/63] fix: images were placed above the cursor of the page
 instead of below it

---
 pdfme/pdf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 7df5d0f..bbe9be4 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -415,12 +415,14 @@ class PDF:
         if x is not None:
             self.page.x = x
         if y is not None:
-            self.page._y = y
+            self.page.y = y
 
+        # page images are placed by their bottom
+        self.page.y += height
         self.page.add_image(image_obj.id, width, height)
 
-        if move == 'bottom':
-            self.page.y += height
+        if move != 'bottom':
+            self.page.y -= height
         if move == 'next':
             self.page.x += width
 
@@ -913,6 +915,7 @@ class PDF:
             if type_ == 'paragraph':
                 self._add_text(**part)
             elif type_ == 'image':
+                part['y'] = self.page.height - part['y'] - part['height']
                 self.add_image(**part)
         # the parts have absolute positions and don't move the cursor
         self.page.x, self.page._y = x, y
-- 
2.43.0


From efc69d4f71ebe789b26031495bfd028a3c3ebbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 35/63] fix: line_height and indent of the document were
 ignored by paragraphs

---
 pdfme/pdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index bbe9be4..1a80df7 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -557,7 +557,7 @@ class PDF:
 
     def _create_text(
         self, content: TextType, width: Number=None, height: Number=None,
-        text_align: str=None, line_height: Number=1.1, indent: Number=0,
+        text_align: str=None, line_height: Number=None, indent: Number=None,
         list_text: str=None, list_indent: Number=None, list_style: dict=None
     ) -> 'PDFText':
         """Method to create a paragraph.
@@ -655,7 +655,7 @@ class PDF:
     def _text(
         self, content: Union[TextType, 'PDFText'], width: Number=None,
         height: Number=None, x: Number=None, y: Number=None,
-        text_align: str=None, line_height: Number=1.1, indent: Number=0,
+        text_align: str=None, line_height: Number=None, indent: Number=None,
         list_text: str=None, list_indent: Number=None, list_style: dict=None,
         move: str='bottom'
     ) -> 'PDFText':
@@ -687,8 +687,8 @@ class PDF:
         return pdf_text
 
     def text(
-        self, content: TextType, text_align: str=None, line_height: Number=1.1,
-        indent: Number=0, list_text: str=None, list_indent: Number=None,
+        self, content: TextType, text_align: str=None, line_height: Number=None,
+        indent: Number=None, list_text: str=None, list_indent: Number=None,
         list_style: dict=None
     ) -> None:
         """Method to create and add a paragraph to this document. This method
-- 
2.43.0


From f8efd95404a0dd572e66cf0354fc446db9c92b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 36/63] fix: running sections were added in random order

---
 pdfme/document.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index d7881f9..67725fe 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -318,7 +318,7 @@ class PDFDocument:
 
             page_args = section_page_args.copy()
 
-            running_sections = set(section.get('running_sections', []))
+            running_sections = list(section.get('running_sections', []))
 
             for range_dict in self.per_page:
                 if page_n in range_dict['pages']:
@@ -330,10 +330,12 @@ class PDFDocument:
                         })
                     if 'running_sections' in range_dict:
                         per_page_rs = range_dict['running_sections']
-                        running_sections -= set(per_page_rs.get('exclude', []))
-                        running_sections.update(
-                            set(per_page_rs.get('include', []))
-                        )
+                        exclude = per_page_rs.get('exclude', [])
+                        running_sections = [
+                            name for name in running_sections
+                            if name not in exclude
+                        ]
+                        running_sections.extend(per_page_rs.get('include', []))
 
             self.pdf.setup_page(**page_args)
 
@@ -348,6 +350,9 @@ class PDFDocument:
 
             self.section.setup(self.x, self.y, self.width, self.height)
 
+            # remove duplicates
+            running_sections = list(dict.fromkeys(running_sections))
+
             self._set_running_sections(
                 running_sections, page_width, page_height, self.pdf.margin
             )
-- 
2.43.0


From 6ff4f2d5570584017e3649c9865df6d09f7960ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 37/63] fix: page style of a section or page range was applied
 to the following pages

---
 pdfme/document.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 67725fe..9a7eb8a 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -171,6 +171,11 @@ class PDFDocument:
             **page_args, **style_args
         )
 
+        self.page_defaults = dict(
+            page_size=(self.pdf.page_width, self.pdf.page_height),
+            rotate_page=self.pdf.rotate_page, margin=self.pdf.margin
+        )
+
         self.style = style
 
         self.pdf.context.update(context)
@@ -316,7 +321,7 @@ class PDFDocument:
         while True:
             page_n = len(self.pdf.pages)
 
-            page_args = section_page_args.copy()
+            page_args = {**self.page_defaults, **section_page_args}
 
             running_sections = list(section.get('running_sections', []))
 
-- 
2.43.0


From 5e9f74da49bf868efe88eb55a9d6407a3a5123cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 38/63] fix: accept margin strings of a single number

---
 pdfme/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 5a8ae6b..e2451e6 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -114,7 +114,7 @@ def parse_margin(margin: MarginType) -> dict:
     if isinstance(margin, str):
         margin = re.split(',| ', margin)
         if len(margin) == 1:
-            margin = float(margin)
+            margin = float(margin[0])
         else:
             margin = [float(x) for x in margin]
 
-- 
2.43.0


From 59140c5023fb75bc3c3e9d26973a139baa6628a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 39/63] fix: reject colors with a wrong number of components

---
 pdfme/color.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/color.py b/pdfme/color.py
index 4809c0c..f8afac8 100644
--- a/pdfme/color.py
+++ b/pdfme/color.py
@@ -266,5 +266,7 @@ def parse_color(color: ColorType) -> list:
             return [float(c) for c in color[:4]]
         except:
             raise TypeError("Couldn't parse numeric color value: {}".format(color))
+    else:
+        raise TypeError('Invalid number of color components: {}'.format(color))
 
 from .utils import copy
-- 
2.43.0


From be855ea191c97ede5ff48668ebddd40359c1afc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 40/63] fix: reject signs and spaces in hexadecimal colors

---
 pdfme/color.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfme/color.py b/pdfme/color.py
index f8afac8..0ac963e 100644
--- a/pdfme/color.py
+++ b/pdfme/color.py
@@ -235,8 +235,7 @@ def parse_color(color: ColorType) -> list:
         elif color in colors:
             return colors[color]
         elif color[0] == '#' and len(color) in [4,5,7,9]:
-            try: int(color[1:], 16)
-            except:
+            if not re.match('[0-9a-fA-F]+$', color[1:]):
                 raise TypeError("Couldn't parse hexagesimal color value: {}".format(color))
 
             n = len(color)
-- 
2.43.0


From a85fd0b34a1dc798a45a174b89370c40027a80e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 41/63] fix: list paragraphs whose first line is empty

---
 pdfme/text.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index ea3cd0a..864d48d 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -694,7 +694,6 @@ class PDFTextBase:
         )
 
         if not self.list_setup_done and self.list_text:
-            self.list_setup_done = True
             self.setup_list()
 
         self.current_line_used_fonts.add((
@@ -742,6 +741,10 @@ class PDFTextBase:
                 self.current_line.next_line.line_parts
             )
 
+        if not self.list_setup_done and self.list_text:
+            # there's no text in the first line
+            self.setup_list()
+
         line_height = self.current_line.height
         if self.is_first_line and self.list_text:
             line_height = max(line_height, self.list_state.size)
@@ -778,7 +781,12 @@ class PDFTextBase:
             TypeError: if list_style or list_indent passed to this instance
                 are not a dict and an number respectively.
         """
-        style = self.current_line.next_line.line_parts[0].style.copy()
+        self.list_setup_done = True
+        next_line = self.current_line.next_line
+        if next_line is None:
+            style = TEXT_DEFAULTS.copy()
+        else:
+            style = next_line.line_parts[0].style.copy()
 
         if self.list_style is None:
             self.list_style = {}
-- 
2.43.0


From 0cf37e502888b2a24cabff3e0d8b0347059a1ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 42/63] fix: building a document changed the styles in its
 definitions

---
 pdfme/content.py  | 2 +-
 pdfme/document.py | 2 +-
 pdfme/pdf.py      | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index cf8c38d..53f3325 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -866,7 +866,7 @@ class PDFContentPart:
             par_style = {
                 v: style.get(v) for v in PARAGRAPH_PROPERTIES if v in style
             }
-            element['style'] = style.copy()
+            element = {**element, 'style': style.copy()}
             pdf_text = PDFText(
                 element, self.width, self.max_height, self.x, self.y,
                 fonts=self.p.fonts, pdf=self.p.pdf, **par_style
diff --git a/pdfme/document.py b/pdfme/document.py
index 9a7eb8a..3ac83c2 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -308,7 +308,7 @@ class PDFDocument:
         if section_style.get('page_numbering_reset', False):
             self.pdf.page_numbering_offset = -len(self.pdf.pages)
 
-        section['style'] = section_style
+        section = {**section, 'style': section_style}
 
         self.section = self.pdf._create_content(
             section, self.width, self.height, self.x, self.y
diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 1a80df7..dfa523c 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -512,6 +512,7 @@ class PDF:
             if len(style_str) > 0:
                 style.update(parse_style_str(style_str[0], self.fonts))
             style.update(process_style(content.get('style'), self))
+            content = copy(content)
             content['style'] = style
         return content
 
-- 
2.43.0


From 7a60d15ea0cfaa9ccf9499a8aa331af2452f36c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 43/63] fix: group elements were placed as if their first
 attempt had been kept

---
 pdfme/content.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 53f3325..7ec23ff 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -1135,7 +1135,7 @@ class PDFContentPart:
         Returns:
             dict: Containing instructions to the caller.
         """
-        initial_y = self.y
+        initial = (self.y, self.starting, self.last_bottom)
 
         if not self.starting:
             self.y -=  style.get('margin_top', 0)
@@ -1161,12 +1161,14 @@ class PDFContentPart:
                         .format(group_element)
                     )
                 group_element['tries'] += 1
-                self.y = initial_y
+                self.y, self.starting, self.last_bottom = initial
                 return {'delayed': group_element, 'next': False, 'flow': True}
 
         new_images_size = images_size + self.y - self.max_y
         image_ratio = new_images_size / images_size if len(images) else 1
-        self.y = initial_y
+        self.y, self.starting, self.last_bottom = initial
+        if not self.starting:
+            self.y -=  style.get('margin_top', 0)
 
         for i, element in enumerate(group_element['group']):
             min_height = None
-- 
2.43.0


From b9830038bc7cbf28f0e840eeebe2f0e94abfd39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 44/63] fix: images in groups could be lost because of rounding
 errors

---
 pdfme/content.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 7ec23ff..44640f4 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -1164,7 +1164,9 @@ class PDFContentPart:
                 self.y, self.starting, self.last_bottom = initial
                 return {'delayed': group_element, 'next': False, 'flow': True}
 
-        new_images_size = images_size + self.y - self.max_y
+        # leave out a bit of the available space, so that rounding errors don't
+        # make an element not to fit below
+        new_images_size = images_size + max(0, self.y - self.max_y - 1e-6)
         image_ratio = new_images_size / images_size if len(images) else 1
         self.y, self.starting, self.last_bottom = initial
         if not self.starting:
-- 
2.43.0


From 446a3f3f281a6e2495370912f8f032601ec84424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 45/63] fix: groups with images were delayed although their
 images could be shrinked

---
 pdfme/content.py | 60 ++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 44640f4..18d4e60 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -896,7 +896,7 @@ class PDFContentPart:
 
     def process_image(
         self, element: dict, style: dict, add_parts: bool=True,
-        add_top_margin: bool=True
+        add_top_margin: bool=True, shrink_image: bool=False
     ) -> dict:
         """Function that tries to add an image to the current column rectangle,
         and add it to the delayed list if it can't add it.
@@ -904,6 +904,8 @@ class PDFContentPart:
         Args:
             element (dict): The image to be added
             style (dict): The style of the image.
+            shrink_image (bool): Whether to shrink the image to its
+                ``min_height`` even when there's enough space for it.
 
         Returns:
             dict: Containing instructions to the caller.
@@ -925,7 +927,8 @@ class PDFContentPart:
         min_height = style.get('min_height', float('inf'))
 
         can_add = False
-        if height < self.max_height:
+        shrink_image = shrink_image and min_height < height
+        if height < self.max_height and not shrink_image:
             can_add = True
         elif min_height <= self.max_height:
             can_add = True
@@ -1095,7 +1098,8 @@ class PDFContentPart:
 
     def process_group_element(
         self, element: dict, inherited_style: dict, add_element: bool=False,
-        add_top_margin: bool=True, min_height: Optional[Number] = None
+        add_top_margin: bool=True, min_height: Optional[Number] = None,
+        shrink_image: bool=False
     ):
         element = self.parse_element(element)
         style, element_style = self.get_element_styles(element, inherited_style)
@@ -1111,7 +1115,7 @@ class PDFContentPart:
         elif 'image' in element:
             style['shrink'] = True
             return self.process_image(
-                element, style, add_element, add_top_margin
+                element, style, add_element, add_top_margin, shrink_image
             )
         elif 'table' in element or 'table_delayed' in element:
             return self.process_table(
@@ -1137,8 +1141,10 @@ class PDFContentPart:
         """
         initial = (self.y, self.starting, self.last_bottom)
 
-        if not self.starting:
-            self.y -=  style.get('margin_top', 0)
+        def go_to_initial():
+            self.y, self.starting, self.last_bottom = initial
+            if not self.starting:
+                self.y -=  style.get('margin_top', 0)
 
         images = {}
         images_size = 0
@@ -1151,26 +1157,36 @@ class PDFContentPart:
                     images[i] = min_height
                     images_size += min_height
 
-            ans = self.process_group_element(
-                element, style, add_element=False, add_top_margin=i != 0
-            )
-            if not (isinstance(ans, dict) and ans.get('delayed') is None):
-                if group_element.setdefault('tries', 0) >= 50:
-                    raise Exception(
-                        'Group element could not be fitted in the document: {}'
-                        .format(group_element)
-                    )
-                group_element['tries'] += 1
-                self.y, self.starting, self.last_bottom = initial
-                return {'delayed': group_element, 'next': False, 'flow': True}
+        # the images are shrinked only if the group doesn't fit otherwise
+        for shrink_images in (False, True):
+            go_to_initial()
+            fits = True
+            for i, element in enumerate(group_element['group']):
+                ans = self.process_group_element(
+                    element, style, add_element=False, add_top_margin=i != 0,
+                    shrink_image=shrink_images
+                )
+                if not (isinstance(ans, dict) and ans.get('delayed') is None):
+                    fits = False
+                    break
+            if fits:
+                break
+
+        if not fits:
+            if group_element.setdefault('tries', 0) >= 50:
+                raise Exception(
+                    'Group element could not be fitted in the document: {}'
+                    .format(group_element)
+                )
+            group_element['tries'] += 1
+            self.y, self.starting, self.last_bottom = initial
+            return {'delayed': group_element, 'next': False, 'flow': True}
 
         # leave out a bit of the available space, so that rounding errors don't
         # make an element not to fit below
         new_images_size = images_size + max(0, self.y - self.max_y - 1e-6)
         image_ratio = new_images_size / images_size if len(images) else 1
-        self.y, self.starting, self.last_bottom = initial
-        if not self.starting:
-            self.y -=  style.get('margin_top', 0)
+        go_to_initial()
 
         for i, element in enumerate(group_element['group']):
             min_height = None
@@ -1179,7 +1195,7 @@ class PDFContentPart:
                 min_height *= 1 if style.get('shrink', 0) else image_ratio
             self.process_group_element(
                 element, style, add_element=True, add_top_margin=i != 0,
-                min_height=min_height
+                min_height=min_height, shrink_image=shrink_images
             )
 
         return {'delayed': None, 'next': False}
-- 
2.43.0


From bbbacc144c823cce1d1a7cb6f0ef0f79b4d64607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 46/63] fix: nested boxes were started again when there were
 delayed elements before them

---
 pdfme/content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 18d4e60..1f4ddfd 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -470,7 +470,7 @@ class PDFContentPart:
 
         if (
             len(self.delayed) > 0 and
-            self.element_index >= len(self.elements) - 1
+            self.element_index >= len(self.elements)
         ):
             return 'next'
 
-- 
2.43.0


From 5cb4bc9db508914bb2131880db9238594998834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 47/63] fix: columns with delayed elements were balanced, going
 out of their rectangle

---
 pdfme/content.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 1f4ddfd..a034ce2 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -634,7 +634,10 @@ class PDFContentPart:
         """
 
         parent = self.parent
-        if parent and self.last  and parent.cols_n > 1:
+        if (
+            parent and self.last and parent.cols_n > 1 and
+            len(parent.delayed) == 0
+        ):
             parent.start_resetting()
             return
 
-- 
2.43.0


From 3c07cb27a344756cb4150090e2f342ef52611c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 48/63] fix: elements of nested boxes were repeated after
 moving to another column with delayed elements

---
 pdfme/content.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index a034ce2..0ce67ef 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -438,6 +438,7 @@ class PDFContentPart:
         self.section_element_index = section_element_index
         self.section_delayed = copy(section_delayed)
         self.children_memory = copy(children_memory)
+        self.partial_children_memory = None
 
     def add_delayed(self) -> str:
         '''Function to add the delayed elements to the rectangle.
@@ -676,7 +677,7 @@ class PDFContentPart:
                 self.max_y += self.minim_diff
 
         self.resetting = True
-
+        self.partial_children_memory = None
         self.element_index = self.section_element_index
         self.delayed = copy(self.section_delayed)
 
@@ -724,12 +725,13 @@ class PDFContentPart:
                     'delayed': copy(self.delayed)
                 }
                 if children_memory is None:
-                    self.children_memory = []
-                    new_children_memory = [new_index]
+                    # a child could be waiting for the delayed elements
+                    self.children_memory = \
+                        copy(self.partial_children_memory or [])
                 else:
                     self.children_memory = copy(children_memory)
-                    new_children_memory = copy(children_memory)
-                    new_children_memory.append(new_index)
+                new_children_memory = copy(self.children_memory)
+                new_children_memory.append(new_index)
 
                 if self.is_root:
                     return 'interrupt'
@@ -1058,14 +1060,15 @@ class PDFContentPart:
         down_condition2 = self.partial_children_memory is not None
 
         if down_condition1 or down_condition2:
-            child = self.children_memory[-1] if down_condition1 else \
-                self.partial_children_memory[-1]
+            # the partial memory is newer than the one of the last section jump
+            memory = self.partial_children_memory if down_condition2 else \
+                self.children_memory
+            child = memory[-1]
             pdf_content.section_element_index = child['index']
             pdf_content.section_delayed = copy(child['delayed'])
             pdf_content.element_index = child['index']
             pdf_content.delayed = copy(child['delayed'])
-            pdf_content.children_memory = self.children_memory[:-1] \
-                if down_condition1 else self.partial_children_memory[:-1]
+            pdf_content.children_memory = memory[:-1]
 
             self.partial_children_memory = None
 
-- 
2.43.0


From 9b38c9c6cef21578cb16cabbd67a2e8d33e4d0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 49/63] fix: list text took its style from the part where the
 paragraph was resumed

---
 pdfme/text.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 864d48d..af5212d 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -782,11 +782,14 @@ class PDFTextBase:
                 are not a dict and an number respectively.
         """
         self.list_setup_done = True
-        next_line = self.current_line.next_line
-        if next_line is None:
-            style = TEXT_DEFAULTS.copy()
-        else:
-            style = next_line.line_parts[0].style.copy()
+        # the first part of the paragraph, not the one where it was resumed
+        style = TEXT_DEFAULTS.copy()
+        for part in self.content:
+            if 'type' in part:
+                break
+            if isinstance(part.get('text'), (str, list, tuple)):
+                style.update(part.get('style', {}))
+                break
 
         if self.list_style is None:
             self.list_style = {}
-- 
2.43.0


From cd3bb9d112fe7966b510570d5b33883e3b175ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 50/63] fix: background of a word wider than a justified line
 was too short

---
 pdfme/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index af5212d..5b3c842 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -887,7 +887,8 @@ class PDFTextBase:
 
         factor = 1 if ignore_factor else factor_width / spaces_width
         if is_last and self.text_align == 'j' and spaces_width != 0:
-            factor = min(1, factor_width / spaces_width)
+            # a word wider than the line doesn't narrow the spaces further
+            factor = min(1, max(line.factor, factor_width / spaces_width))
 
         for part in line.line_parts:
             text = self.clean_words(part.words)
-- 
2.43.0


From e2e05d58ea3ae1a1cda614d319bab6f451f9a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 51/63] fix: cells covered by a span were rendered when the
 table went on in another page

---
 pdfme/table.py | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 10f5686..759a1dc 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -481,15 +481,20 @@ class PDFTable:
         if len(self.delayed) > 0:
             can_continue = False
             row = [self.delayed.get(i) for i in range(self.cols_count)]
-            action = self.add_row(row, True)
+            action = self.add_row(self.continue_cells(row, True), True)
             if action == 'continue':
                 self.current_index += 1
                 can_continue = True
 
         cancel = False
         if can_continue:
+            is_first = self.current_height == 0
             while self.current_index < len(self.content):
-                action = self.add_row(self.content[self.current_index])
+                row = self.content[self.current_index]
+                if is_first:
+                    row = self.continue_cells(row)
+                    is_first = False
+                action = self.add_row(row)
                 if action == 'cancel':
                     cancel = True
                     break
@@ -522,6 +527,36 @@ class PDFTable:
         if self.current_index >= len(self.content) and len(self.delayed) == 0:
             self.finished = True
 
+    def continue_cells(self, row: Iterable, is_delayed: bool=False) -> list:
+        """Method to get the first row to be added to a rectangle, with the
+        cells already completed in the previous one that go on in it.
+
+        Args:
+            row (iterable): the row iterable.
+            is_delayed (bool, optional): whether this row is being added in
+                delayed mode (``True``) or not (``False``).
+
+        Returns:
+            list: the row, with empty cells where the other cells continue.
+        """
+        row = list(row)
+        ends = [0] * self.cols_count
+        last = self.current_index + (1 if is_delayed else 0)
+        for i, cells in enumerate(self.content[:last]):
+            for col, cell in enumerate(cells):
+                if ends[col] > i or not isinstance(cell, dict):
+                    continue
+                rowspan, colspan = cell.get('rowspan', 1), cell.get('colspan', 1)
+                ends[col:col + colspan] = [i + rowspan] * colspan
+                rowspan += i - self.current_index
+                if rowspan < 1 or is_delayed and col in self.delayed:
+                    continue
+                row[col] = {'.': '', 'rowspan': rowspan, 'colspan': colspan}
+                style = process_style(cell.get('style'), self.pdf)
+                if 'cell_fill' in style:
+                    row[col]['style'] = {'cell_fill': style['cell_fill']}
+        return row
+
     def add_row(self, row: Iterable, is_delayed: bool=False) -> str:
         """Method to add a row to this table.
 
-- 
2.43.0


From 8fa00d5d07a8308e123da1a3343857ce008a3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:36 +0000
Subject: [PATCH 52/63] fix: state could not be restored in a new content box

---
 pdfme/content.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 0ce67ef..71cd0ce 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -190,6 +190,9 @@ class PDFContent:
         self.fonts = fonts
         self.current_height = 0
         self.pdf = pdf
+        self.fills = []
+        self.lines = []
+        self.parts = []
 
     def setup(
         self, x: Number=None, y: Number=None, width: Number=None,
@@ -242,14 +245,8 @@ class PDFContent:
         self.fills = []
         self.lines = []
         self.parts = []
-        content_part = self.pdf_content_part
-        if content_part is None:
-            self.pdf_content_part = content_part = PDFContentPart(
-                self.content, self, self.x, self.width, self.min_y, self.max_y,
-                last=True
-            )
-        else:
-            content_part.setup(self.x, self.width, self.min_y, self.max_y)
+        content_part = self.get_content_part()
+        content_part.setup(self.x, self.width, self.min_y, self.max_y)
 
         ret = content_part.run()
         self.current_height = content_part.min_y - (
@@ -258,6 +255,19 @@ class PDFContent:
         if ret == 'continue':
             self.finished = True
 
+    def get_content_part(self) -> 'PDFContentPart':
+        """Method to get the root element of this content box.
+
+        Returns:
+            PDFContentPart: the root element of this content box.
+        """
+        if self.pdf_content_part is None:
+            self.pdf_content_part = PDFContentPart(
+                self.content, self, self.x, self.width, self.min_y, self.max_y,
+                last=True
+            )
+        return self.pdf_content_part
+
     def get_state(self) -> dict:
         """Method to get the current state of this content box. This can be used
         later in method :meth:`pdfme.content.PDFContent.set_state` to restore
@@ -266,7 +276,7 @@ class PDFContent:
         Returns:
             dict: a dict with the state of this content box.
         """
-        return self.pdf_content_part.get_state()
+        return self.get_content_part().get_state()
 
     def set_state(
         self, section_element_index: int=None, section_delayed: list=None,
@@ -286,7 +296,7 @@ class PDFContent:
                 a content box, this list says what the indexes of the nested
                 content boxes inside this content box are.
         """
-        self.pdf_content_part.set_state(
+        self.get_content_part().set_state(
             section_element_index, section_delayed, children_memory
         )
 class PDFContentPart:
-- 
2.43.0


From c08abc7bb8d297a6b2e2860dd47613c5e08663d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 53/63] fix: slices with negative steps in position strings of
 tables selected nothing

---
 pdfme/table.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 759a1dc..0521aa5 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -300,15 +300,11 @@ class PDFTable:
         """
         data = ':' if data == '' else data
         if ':' in data:
-            parts = data.split(':')
-            num = 0 if parts[0].strip() == '' else int(parts[0])
-            parts[0] = num if num >= 0 else count + num
-            if len(parts) > 1:
-                num = count if parts[1].strip() == '' else int(parts[1])
-                parts[1] = num if num >= 0 else count + num
-            if len(parts) > 2:
-                parts[2] = 1 if parts[2].strip() == '' else int(parts[2])
-            return range(*parts)
+            parts = [
+                None if part.strip() == '' else int(part)
+                for part in data.split(':')
+            ]
+            return range(count)[slice(*parts)]
         else:
             return [
                 count + int(i) if int(i) < 0 else int(i)
-- 
2.43.0


From 4d81bc1f654130a9d6f0b42e255ac91e3e576eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 54/63] fix: fills of a table could not overwrite the cell_fill
 of its style

---
 pdfme/table.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 0521aa5..53f87bc 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -732,10 +732,12 @@ class PDFTable:
                     + str(element)
                 )
 
+            own_style = {}
             keys = [key for key in element.keys() if key.startswith('.')]
             if len(keys) > 0:
-                style.update(parse_style_str(keys[0][1:], self.fonts))
-            style.update(process_style(element.get('style'), self.pdf))
+                own_style.update(parse_style_str(keys[0][1:], self.fonts))
+            own_style.update(process_style(element.get('style'), self.pdf))
+            style.update(own_style)
             cell_style = {}
             attr = 'cell_margin'
             for side in ('top', 'right', 'bottom', 'left'):
@@ -743,7 +745,9 @@ class PDFTable:
                     attr + '_' + side, style.get(attr, None)
                 )
             style.pop(attr, None)
-            cell_style['cell_fill'] = style.pop('cell_fill', None)
+            style.pop('cell_fill', None)
+            if 'cell_fill' in own_style:
+                cell_style['cell_fill'] = own_style['cell_fill']
         element = copy(element)
         return element, style, cell_style
 
@@ -759,12 +763,11 @@ class PDFTable:
             width (Number): the width of the cell.
             rowspan (int): the rowspan of the cell.
         """
-        fill_color = cell_style.get('cell_fill', None)
-
-        if fill_color is None:
-            fill_color = (
-                self.fills_defs.get(self.current_index, {}).get(col, None)
+        fill_color = cell_style.get(
+            'cell_fill', self.fills_defs.get(self.current_index, {}).get(
+                col, self.style.get('cell_fill', None)
             )
+        )
 
         if fill_color is not None:
             self.fills_mem[col] = { 'type': 'fill', 'x': self.x_abs,
-- 
2.43.0


From 740a147cead2a1d919c17e951774a08c2ebb3ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 55/63] fix: cells with row spans changed their fill in the
 next page

---
 pdfme/table.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 53f87bc..01909ac 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -544,10 +544,14 @@ class PDFTable:
                     continue
                 rowspan, colspan = cell.get('rowspan', 1), cell.get('colspan', 1)
                 ends[col:col + colspan] = [i + rowspan] * colspan
-                rowspan += i - self.current_index
-                if rowspan < 1 or is_delayed and col in self.delayed:
+                if (
+                    i + rowspan <= self.current_index or
+                    is_delayed and col in self.delayed
+                ):
                     continue
-                row[col] = {'.': '', 'rowspan': rowspan, 'colspan': colspan}
+                row[col] = {
+                    '.': '', 'rowspan': rowspan, 'colspan': colspan, 'row': i
+                }
                 style = process_style(cell.get('style'), self.pdf)
                 if 'cell_fill' in style:
                     row[col]['style'] = {'cell_fill': style['cell_fill']}
@@ -752,7 +756,7 @@ class PDFTable:
         return element, style, cell_style
 
     def _setup_cell_fill(
-        self, col: int, cell_style: dict, width: Number, rowspan: int
+        self, col: int, cell_style: dict, width: Number, rowspan: int, row: int
     ) -> None:
         """Method to optionally add the fill color in ``cell`style`` to
         attribute ``fills_mem``
@@ -762,9 +766,10 @@ class PDFTable:
             cell_style (dict): the cell style.
             width (Number): the width of the cell.
             rowspan (int): the rowspan of the cell.
+            row (int): the index of the first row of the cell.
         """
         fill_color = cell_style.get(
-            'cell_fill', self.fills_defs.get(self.current_index, {}).get(
+            'cell_fill', self.fills_defs.get(row, {}).get(
                 col, self.style.get('cell_fill', None)
             )
         )
@@ -823,7 +828,7 @@ class PDFTable:
             'rowspan': element.get('rowspan', 1), 'row': row_added
         }
 
-        self._setup_cell_fill(col, cell_style, width + padd_x, rowspan)
+        self._setup_cell_fill(col, cell_style, width + padd_x, rowspan, row_added)
 
         keys = [key for key in element.keys() if key.startswith('.')]
 
-- 
2.43.0


From 4e0af624efbc3176ff0998fea79aaad6af92616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 56/63] fix: text of cells with row spans went out of the table
 at the end of a page

---
 pdfme/table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/table.py b/pdfme/table.py
index 01909ac..dd4cb37 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -598,6 +598,9 @@ class PDFTable:
                 ret = False
                 break
 
+        if not ret:
+            self.max_height = max([self.max_height, *self.heights_mem.values()])
+
         self.x_abs = self.x + self.width
         last_border = self.get_border(self.current_index, len(row), True)
         self.process_borders(len(row), last_border, {})
-- 
2.43.0


From 5507f61fd54481e1d9a7863a77afb6f993e1469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 57/63] fix: top border of the cells next to a row span was
 lost

---
 pdfme/table.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index dd4cb37..c8d3e88 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -695,7 +695,7 @@ class PDFTable:
         elif not is_delayed:
             rowspan_memory['rows'] -= 1
             self.colspan = rowspan_memory['cols']
-            self.is_rowspan = True
+            self.is_rowspan = self.colspan > 0
             border_top['width'] = 0
 
             if rowspan_memory['rows'] == 0:
@@ -704,8 +704,6 @@ class PDFTable:
                     self.fills_mem[col]['add_later'] = False
                 if self.heights_mem.get(col, 0) > self.max_height:
                     self.max_height = self.heights_mem[col]
-                if self.colspan == 0:
-                    self.is_rowspan = False
             can_continue = True
         return can_continue
 
-- 
2.43.0


From 5581e396ea4de55668f4ef46742ca97b9d80ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 58/63] fix: width of the glyph shown for characters that are
 not in an added font was not declared

---
 pdfme/fonts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 2e19402..7c1a085 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -393,8 +393,9 @@ class PDFTrueTypeFont(PDFFont):
         current_width_group = []
 
         prev_glyph_id = None
-        for c in cmap:
-            current_glyph_id = font.getGlyphID(cmap[c])
+        # glyph .notdef is shown for the characters that are not in the font
+        for glyph in ['.notdef', *cmap.values()]:
+            current_glyph_id = font.getGlyphID(glyph)
             if not widths:
                 widths.append(current_glyph_id)
             elif (current_glyph_id - prev_glyph_id) != 1:
@@ -403,7 +404,7 @@ class PDFTrueTypeFont(PDFFont):
                 current_width_group = []
 
             prev_glyph_id = current_glyph_id
-            current_width_group.append(glyph_set[cmap[c]].width * scale)
+            current_width_group.append(glyph_set[glyph].width * scale)
 
         widths.append(current_width_group)
 
-- 
2.43.0


From 050a49f696b09be9a8db1064991bd11cfdc09827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:54 +0000
Subject: [PATCH 59/63] fix: fonts without OS/2 table could not be loaded

---
 pdfme/fonts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 7c1a085..858864a 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -311,7 +311,7 @@ class PDFTrueTypeFont(PDFFont):
             if hhea is None:
                 ascent = yMax
                 descent = yMin
-            capHeight = self.ascent
+            capHeight = ascent
 
         stemV = 50 + int(pow((usWeightClass / 65.0),2))
 
-- 
2.43.0


From 9d9df5deb7349a85301052bcb08f7cefd0199d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:54 +0000
Subject: [PATCH 60/63] fix: hexadecimal colors that end with a line feed are
 not colors

---
 pdfme/color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/color.py b/pdfme/color.py
index 0ac963e..2d25e58 100644
--- a/pdfme/color.py
+++ b/pdfme/color.py
@@ -235,7 +235,7 @@ def parse_color(color: ColorType) -> list:
         elif color in colors:
             return colors[color]
         elif color[0] == '#' and len(color) in [4,5,7,9]:
-            if not re.match('[0-9a-fA-F]+$', color[1:]):
+            if not re.fullmatch('[0-9a-fA-F]+', color[1:]):
                 raise TypeError("Couldn't parse hexagesimal color value: {}".format(color))
 
             n = len(color)
-- 
2.43.0


From 27279e5f06d11b5eadeb783e7484d438f2d44477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:54 +0000
Subject: [PATCH 61/63] fix: JPEG markers can be preceded by fill bytes

---
 pdfme/image.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/image.py b/pdfme/image.py
index e45d28f..c048aea 100644
--- a/pdfme/image.py
+++ b/pdfme/image.py
@@ -96,6 +96,8 @@ class PDFImage:
                 markerHigh, markerLow = struct.unpack("BB", bytes_.read(2))
                 if markerHigh != 0xFF or markerLow < 0xC0:
                     raise SyntaxError("No JPEG marker found")
+                elif markerLow == 0xFF:
+                    bytes_.seek(-1, 1)  # fill byte before a marker
                 elif markerLow == 0xDA:
                     raise SyntaxError("No JPEG SOF marker found")
                 elif (
-- 
2.43.0


From 761e6ca41d3960196fdd4f56de3764fc2133a1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:54 +0000
Subject: [PATCH 62/63] fix: tables with cells without content never finished

---
 pdfme/table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/table.py b/pdfme/table.py
index c8d3e88..d057b1f 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -852,6 +852,8 @@ class PDFTable:
             real_height, did_finished = self.process_table(
                 element, x, y, width, height, style, delayed
             )
+        else:
+            did_finished = True
 
         if did_finished:
             self.delayed.pop(col, None)
-- 
2.43.0


From 95c7775d67f715ceb66332c05bea2d8a532f7a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:36 +0000
Subject: [PATCH 63/63] fix: a footnote whose style is the name of a format
 raised AttributeError

---
 pdfme/document.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 3ac83c2..afb5f4a 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -459,10 +459,11 @@ class PDFDocument:
         content = {'style': '$footnotes', 'content': []}
         for index, footnote in enumerate(page_footnotes):
             footnote = copy(footnote)
-            style = footnote.setdefault('style', {})
+            style = copy(process_style(footnote.get('style'), self.pdf))
             style.update(dict(
                 list_text=str(index + 1) + ' ', list_style='$footnote'
             ))
+            footnote['style'] = style
             content['content'].append(footnote)
 
         footnote_obj = self.pdf._create_content(
-- 
2.43.0

