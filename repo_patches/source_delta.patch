From 876ff34b2a43559b0a410b4c59db153ea4c9adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 01/49] fix: vertical positions in horizontal boxes use the
 height of the parent

---
 elsie/boxtree/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index dd2039b..7de68a5 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -162,7 +162,7 @@ class Layout:
                 w = w.compute(rect.width, fill_unit)
                 h = h.compute(rect.height, None)
                 if child._y is not None:
-                    y = child._y.compute(rect.y, rect.width, h)
+                    y = child._y.compute(rect.y, rect.height, h)
                 else:
                     y = rect.y + (rect.height - h) / 2
                 if child._x is None:
-- 
2.43.0


From 5e9f0bd19995d8731007b2f01dd569a1f5950ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 02/49] fix: reject size and position strings with trailing
 newline or repeated ')'

---
 elsie/boxtree/value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/boxtree/value.py b/elsie/boxtree/value.py
index 36f42ec..ad50020 100644
--- a/elsie/boxtree/value.py
+++ b/elsie/boxtree/value.py
@@ -6,7 +6,7 @@ from .lazy import LazyValue
 
 class SizeValue:
     parser = re.compile(
-        r"^(?P<min_size>\d+)$|^(?P<ratio>\d+)%$|^(?P<fill_1>fill)$|^fill[(](?P<fill>\d+)[)]+$"
+        r"^(?P<min_size>\d+)\Z|^(?P<ratio>\d+)%\Z|^(?P<fill_1>fill)\Z|^fill[(](?P<fill>\d+)[)]\Z"
     )  # noqa
 
     def __init__(self, min_size=0, ratio=None, fill=0, lazy_value=None):
@@ -72,7 +72,7 @@ class SizeValue:
 
 
 class PosValue:
-    parser = re.compile(r"^(?P<fix_pos>^\d+$)|^(?P<ratio>^\d+)%$|^\[(?P<align>\d+)%\]$")
+    parser = re.compile(r"^(?P<fix_pos>^\d+\Z)|^(?P<ratio>^\d+)%\Z|^\[(?P<align>\d+)%\]\Z")
 
     def __init__(self, fix_pos=None, ratio=None, align=None, lazy_value=None):
         self.fix_pos = fix_pos
-- 
2.43.0


From a24471831444fcad62fba87e1cf64e5d1eedbcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 03/49] fix: a doubled escape character stands for the escape
 character itself

---
 elsie/text/textparser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 81860e0..8e29493 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -61,7 +61,12 @@ def parse_text(text, escape_char="~", begin_char="{", end_char="}"):
     counter = 0
     while i < len(text):
         c = text[i]
-        if c == escape_char:
+        if c == escape_char and text[i + 1 : i + 2] == escape_char:
+            # Doubled escape character stands for the character itself
+            result.append(("text", text[start : i + 1]))
+            i += 2
+            start = i
+        elif c == escape_char:
             result.append(("text", text[start:i]))
             i += 1
             start = i
-- 
2.43.0


From a6d573ecab765baf0050c0f92e7e38c0fe7223f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 04/49] fix: merged inline styles are reopened in their
 original order

---
 elsie/text/textparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 8e29493..00cd474 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -190,7 +190,7 @@ def tokens_merge(tokens1, tokens2):
             else:
                 break
         del opened[pos]
-        result.extend(reopen)
+        result.extend(reversed(reopen))
     assert not opened
     return normalize_tokens(result)
 
-- 
2.43.0


From 6ec8905cf49c1c7a3f90b93572f79883c585d60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 05/49] fix: styles with bold or italic disabled override
 enclosing bold and italic styles in SVG

---
 elsie/render/backends/svg/draw.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 6b52060..f4fe511 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -16,10 +16,10 @@ def set_font_from_style(xml, style):
         s += "fill:{};".format(style.color)
     if style.opacity is not None:
         s += f"fill-opacity:{style.opacity};"
-    if style.bold:
-        s += "font-weight: bold;"
-    if style.italic:
-        s += "font-style: italic;"
+    if style.bold is not None:
+        s += "font-weight: {};".format("bold" if style.bold else "normal")
+    if style.italic is not None:
+        s += "font-style: {};".format("italic" if style.italic else "normal")
     if s:
         xml.set("style", s)
 
-- 
2.43.0


From a923010ca58e5ac88e06a3c7c7a6f183cd0ba9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 06/49] fix: SVG text with line breaks or priorities inside
 marker or ignored spans

---
 elsie/render/backends/svg/draw.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index f4fe511..81c2957 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -73,7 +73,7 @@ def draw_text(
     if style.variant_numeric:
         xml.set("font-variant-numeric", style.variant_numeric)
 
-    current_priority = style.priority
+    priorities = [style.priority]
 
     for i, (token_type, value) in enumerate(parsed_text):
         if token_type == "text":
@@ -82,24 +82,21 @@ def draw_text(
             for _ in active_styles:
                 xml.close("tspan")  # tspan
             for j, s in enumerate(active_styles):
-                if s is None:
-                    continue
                 xml.element("tspan")
                 xml.set("xml:space", "preserve")
                 if j == 0:
                     xml.set("x", x)
                     xml.set("dy", line_size * value)
-                set_font_from_style(xml, s)
+                if s is not None:
+                    set_font_from_style(xml, s)
         elif token_type == "begin":
             is_dummy = value and value[0] == "#"
             s = styles.get(value, None)
             if s is None and not is_dummy:
                 raise Exception("Style '{}' not found".format(value))
-            if s is not None:
-                if current_priority > s.priority:
-                    s = None
-                else:
-                    current_priority = s.priority
+            if s is not None and priorities[-1] > s.priority:
+                s = None
+            priorities.append(priorities[-1] if s is None else s.priority)
             active_styles.append(s)
             xml.element("tspan")
             if id is not None and id_index == i:
@@ -110,14 +107,12 @@ def draw_text(
         elif token_type == "end":
             xml.close("tspan")
             active_styles.pop()
-            if active_styles and active_styles[-1] is not None:
-                current_priority = active_styles[-1].priority
+            priorities.pop()
         else:
             raise Exception("Invalid token")
 
-    for s in active_styles:
-        if s is not None:
-            xml.close("tspan")
+    for _ in active_styles:
+        xml.close("tspan")
     xml.close("text")
 
 
-- 
2.43.0


From 46595dd5e062aea236a9de52ac666acb91f6bb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 07/49] fix: digit variant of inline styles was not written to
 SVG

---
 elsie/render/backends/svg/draw.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 81c2957..6529bf5 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -89,6 +89,8 @@ def draw_text(
                     xml.set("dy", line_size * value)
                 if s is not None:
                     set_font_from_style(xml, s)
+                    if j > 0 and s.variant_numeric:
+                        xml.set("font-variant-numeric", s.variant_numeric)
         elif token_type == "begin":
             is_dummy = value and value[0] == "#"
             s = styles.get(value, None)
@@ -104,6 +106,8 @@ def draw_text(
             xml.set("xml:space", "preserve")
             if s:
                 set_font_from_style(xml, s)
+                if s.variant_numeric:
+                    xml.set("font-variant-numeric", s.variant_numeric)
         elif token_type == "end":
             xml.close("tspan")
             active_styles.pop()
-- 
2.43.0


From 3904cf59fa3f52427e4e97fabe173070ac3c7843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 08/49] fix: highlighted code with a line break at the start of
 an inline style

---
 elsie/boxtree/boxmixin.py | 5 ++++-
 elsie/text/highlight.py   | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 369e28f..a64cf3c 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -731,7 +731,10 @@ class BoxMixin:
                     text, escape_char, begin_char=begin_char, end_char=end_char
                 )
                 text = tokens_to_text_without_style(ptext)
-            parsed_text = highlight_code(text, language)
+            # Newlines inside inline styles have to be preserved
+            parsed_text = highlight_code(
+                text, language, strip_newlines=not use_styles
+            )
             if use_styles:
                 parsed_text = tokens_merge(parsed_text, ptext)
                 if start_newlines:
diff --git a/elsie/text/highlight.py b/elsie/text/highlight.py
index de12711..a040307 100644
--- a/elsie/text/highlight.py
+++ b/elsie/text/highlight.py
@@ -30,8 +30,8 @@ class MyFormatter(Formatter):
                 stream.append(("end", None))
 
 
-def highlight_code(code, language):
-    lexer = get_lexer_by_name(language)
+def highlight_code(code, language, strip_newlines=True):
+    lexer = get_lexer_by_name(language, stripnl=strip_newlines)
     formatter = MyFormatter()
     highlight(code, lexer, formatter)
     return normalize_tokens(formatter.stream)
-- 
2.43.0


From 2bfbce3b3f9cf7c1dfefbf42e88389ab4ba1afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 09/49] fix: removing indentation of blank texts and of texts
 with unusual line separators

---
 elsie/text/textparser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 00cd474..0fef734 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -296,6 +296,8 @@ def _tokens_merge_helper(tokens1, tokens2):
 
 def trim_indent(text: str) -> str:
     """Find the smallest common indent from the left in the text and remove it from the text."""
-    lines = text.splitlines(keepends=False)
-    min_indent = min(len(line) - len(line.lstrip()) for line in lines if line.strip())
+    lines = text.split("\n")
+    min_indent = min(
+        (len(line) - len(line.lstrip()) for line in lines if line.strip()), default=0
+    )
     return "\n".join(line[min_indent:] for line in lines)
-- 
2.43.0


From 0e084b12d6982679cc4891f4605fe13be53ea088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:21 +0000
Subject: [PATCH 10/49] fix: apostrophes in XML attribute values are written as
 character references

---
 elsie/utils/sxml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/utils/sxml.py b/elsie/utils/sxml.py
index a190d65..8ef2d44 100644
--- a/elsie/utils/sxml.py
+++ b/elsie/utils/sxml.py
@@ -23,8 +23,9 @@ class Xml:
     def set(self, name, value, escape=True):
         assert self.is_open
         if escape:
-            value = str(value).replace("'", "\\'")
-        self.chunks.append(" {}='{}'".format(name, escape_text(value)))
+            value = str(value)
+        value = escape_text(value).replace("'", "&#39;")
+        self.chunks.append(" {}='{}'".format(name, value))
 
     def text(self, text):
         self._close()
-- 
2.43.0


From 144de63610ec96731b1557d5478d1442827396c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 11/49] fix: Cairo measured the rest of the line instead of a
 nested inline style

---
 elsie/render/backends/cairo/text.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index 70f1cb9..1e2e265 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -171,7 +171,7 @@ def get_extents(layout: pangocffi.Layout, ink=True) -> Rect:
 
 
 def get_byte_range(parsed_text, id_index) -> Tuple[int, int]:
-    stack = []
+    depth = 0
     byte_count = 0
     start = None
 
@@ -183,10 +183,11 @@ def get_byte_range(parsed_text, id_index) -> Tuple[int, int]:
         elif type == "begin":
             if i == id_index:
                 start = byte_count
-            stack.append(value)
+                depth = 0
+            depth += 1
         elif type == "end":
-            stack.pop()
-            if start is not None and not stack:
+            depth -= 1
+            if start is not None and depth == 0:
                 return (start, byte_count)
     assert False
 
-- 
2.43.0


From 70c55746459d15607113e1d80050ee6dddec71d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:44 +0000
Subject: [PATCH 12/49] fix: Cairo backend accepts dash arrays separated by
 commas

---
 elsie/render/backends/cairo/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/draw.py b/elsie/render/backends/cairo/draw.py
index ad6268e..783d24e 100644
--- a/elsie/render/backends/cairo/draw.py
+++ b/elsie/render/backends/cairo/draw.py
@@ -42,7 +42,7 @@ def stroke_shape(ctx, callback, color, stroke_width=None, stroke_dasharray=None)
     stroke_width = stroke_width or 1
     ctx.set_line_width(stroke_width)
     if stroke_dasharray:
-        ctx.set_dash([float(v) for v in stroke_dasharray.split()])
+        ctx.set_dash([float(v) for v in stroke_dasharray.replace(",", " ").split()])
     callback()
     ctx.stroke()
 
-- 
2.43.0


From 6ab11ed85acc7ab1154e3300320378a03fc2cf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:10 +0000
Subject: [PATCH 13/49] fix: Cairo backend draws nothing for a line without
 color

---
 elsie/render/backends/cairo/rcontext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 4c91287..1f22585 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -153,7 +153,7 @@ class CairoRenderingContext(RenderingContext):
                 for p in points[1:]:
                     self.ctx.line_to(*p)
 
-            stroke_shape(self.ctx, draw, **kwargs)
+            fill_stroke_shape(self.ctx, draw, **kwargs)
 
     def draw_path(self, commands, **kwargs):
         with ctx_scope(self.ctx):
-- 
2.43.0


From 88350af807e55e320dc596144f8142312fe47a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:37 +0000
Subject: [PATCH 14/49] fix: the dash pattern of an ellipse does not leak to
 later shapes in Cairo

---
 elsie/render/backends/cairo/rcontext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 1f22585..67e1996 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -132,7 +132,8 @@ class CairoRenderingContext(RenderingContext):
                 draw()
         # Do not apply transform to stroke (https://www.cairographics.org/cookbook/ellipses/)
         if color:
-            stroke_shape(self.ctx, lambda: ..., color=color, **kwargs)
+            with ctx_scope(self.ctx):
+                stroke_shape(self.ctx, lambda: ..., color=color, **kwargs)
 
     def draw_polygon(self, points, rotation=None, **kwargs):
         with ctx_scope(self.ctx):
-- 
2.43.0


From df7603d27bae2f2dde47502b9b2078b208566083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 15/49] fix: Cairo ellipses are not connected to previously
 drawn texts and bitmaps

---
 elsie/render/backends/cairo/rcontext.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 67e1996..eb9a92d 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -120,6 +120,7 @@ class CairoRenderingContext(RenderingContext):
         center = rect.mid_point
 
         def draw():
+            self.ctx.new_sub_path()  # Do not connect to the current point
             self.ctx.arc(center[0], center[1], dim_larger / 2.0, 0, 2 * math.pi)
 
         with ctx_scope(self.ctx):
-- 
2.43.0


From e96e46d9da60371665e10b0754abade6b9ccef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:38 +0000
Subject: [PATCH 16/49] fix: SVG images follow the view box of the slide in the
 Cairo backend

---
 elsie/render/backends/cairo/rcontext.py |  1 +
 elsie/render/backends/cairo/svg.py      | 23 ++++++++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index eb9a92d..9e914c7 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -258,4 +258,5 @@ class CairoRenderingContext(RenderingContext):
             height=height,
             rotation=rotation,
             dpi=self.cairosvg_dpi,
+            matrix=self.ctx.get_matrix(),
         )
diff --git a/elsie/render/backends/cairo/svg.py b/elsie/render/backends/cairo/svg.py
index fb0663e..04201e5 100644
--- a/elsie/render/backends/cairo/svg.py
+++ b/elsie/render/backends/cairo/svg.py
@@ -26,6 +26,7 @@ class CairoSurface(Surface):
         map_rgba=None,
         map_image=None,
         rotation=None,
+        matrix=None,
     ):
         self.surface = surface
         self.cairo = None
@@ -85,10 +86,13 @@ class CairoSurface(Surface):
             raise ValueError("The SVG size is undefined")
 
         self.context = cairo.Context(self.cairo)
-        # We must scale the context as the surface size is using physical units
-        self.context.scale(
-            self.device_units_per_user_units, self.device_units_per_user_units
-        )
+        if matrix is not None:
+            self.context.set_matrix(matrix)
+        else:
+            # We must scale the context as the surface size is using physical units
+            self.context.scale(
+                self.device_units_per_user_units, self.device_units_per_user_units
+            )
         center = (x + width / 2, y + height / 2)
         transform(self.context, center, rotation=rotation)
         self.context.translate(x, y)
@@ -108,7 +112,15 @@ class CairoSurface(Surface):
 
 
 def render_svg(
-    surface: cairo.Surface, svg: str, x, y, width, height, rotation=None, dpi=96
+    surface: cairo.Surface,
+    svg: str,
+    x,
+    y,
+    width,
+    height,
+    rotation=None,
+    dpi=96,
+    matrix=None,
 ):
     tree = Tree(bytestring=svg.encode())
     instance = CairoSurface(
@@ -120,5 +132,6 @@ def render_svg(
         dpi=dpi,
         output_width=width,
         output_height=height,
+        matrix=matrix,
     )
     instance.draw(tree)
-- 
2.43.0


From b8112fb25b87634a02bff026be87d8359f1d875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 17/49] fix: a zero corner radius is written to SVG

---
 elsie/render/backends/svg/draw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 6529bf5..8dbae7b 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -146,9 +146,9 @@ def draw_rect(xml, rect: Rect, rx=None, ry=None, rotation=None, **kwargs):
     xml.set("y", rect.y)
     xml.set("width", rect.width)
     xml.set("height", rect.height)
-    if rx:
+    if rx is not None:
         xml.set("rx", rx)
-    if ry:
+    if ry is not None:
         xml.set("ry", ry)
     if rotation:
         apply_rotation(xml, rotation, rect.mid_point)
-- 
2.43.0


From 34bbb166793f9f9b57d0083db33a3cb49bce4dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:52 +0000
Subject: [PATCH 18/49] fix: Cairo paths draw all repeated arguments of a
 command

---
 elsie/render/backends/cairo/shapes.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/shapes.py b/elsie/render/backends/cairo/shapes.py
index 0afe8ae..3e56aca 100644
--- a/elsie/render/backends/cairo/shapes.py
+++ b/elsie/render/backends/cairo/shapes.py
@@ -1,5 +1,7 @@
 import cairocffi
 
+from ....shapes.path import COMMAND_NARGS
+
 
 def reflect(cp, anchor):
     """
@@ -10,10 +12,21 @@ def reflect(cp, anchor):
     return (anchor[0] + neg[0], anchor[1] + neg[1])
 
 
+def split_commands(commands):
+    """
+    Split commands with repeated arguments into commands with a single group of arguments.
+    """
+    for name, args in commands:
+        nargs = COMMAND_NARGS[name]
+        for i in range(0, len(args), nargs):
+            # Further points of a "move to" command are implicit lines
+            yield "L" if name == "M" and i > 0 else name, args[i : i + nargs]
+
+
 def draw_path(ctx: cairocffi.Context, commands):
     last_cubic_cp = None
     last_quadratic_cp = None
-    for name, args in commands:
+    for name, args in split_commands(commands):
         location = ctx.get_current_point()
         if name == "M":
             last_cubic_cp = None
-- 
2.43.0


From f216d1dbacae40dd67440752ffad841928a31dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 19/49] fix: smooth cubic segments in Cairo reflect the last
 control point

---
 elsie/render/backends/cairo/shapes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/shapes.py b/elsie/render/backends/cairo/shapes.py
index 3e56aca..e5b1bed 100644
--- a/elsie/render/backends/cairo/shapes.py
+++ b/elsie/render/backends/cairo/shapes.py
@@ -41,9 +41,10 @@ def draw_path(ctx: cairocffi.Context, commands):
             last_quadratic_cp = None
             ctx.curve_to(*args[0], *args[1], *args[2])
         elif name == "S":
-            last_cubic_cp = reflect(last_cubic_cp or location, location)
+            first_cp = reflect(last_cubic_cp or location, location)
+            last_cubic_cp = args[0]
             last_quadratic_cp = None
-            ctx.curve_to(*last_cubic_cp, *args[0], *args[1])
+            ctx.curve_to(*first_cp, *args[0], *args[1])
         elif name == "Q":
             last_cubic_cp = None
             last_quadratic_cp = args[0]
-- 
2.43.0


From 2d5257e0e8b87dd68620001383b8393d5c79c44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:00 +0000
Subject: [PATCH 20/49] fix: reject path commands without arguments

---
 elsie/shapes/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/shapes/path.py b/elsie/shapes/path.py
index 701f7a1..6c159c9 100644
--- a/elsie/shapes/path.py
+++ b/elsie/shapes/path.py
@@ -14,7 +14,7 @@ def check_and_unpack_path_commands(commands, box):
         nargs = COMMAND_NARGS.get(name)
         if nargs is None:
             raise Exception("Invalid command name: '{}'".format(name))
-        if (len(command) - 1) % nargs != 0:
+        if len(command) == 1 or (len(command) - 1) % nargs != 0:
             raise Exception(
                 "Invalid number of arguments for command '{}' (got {} arguments)".format(
                     name, len(command) - 1
-- 
2.43.0


From ad559c64a040e8c528d01d33d9aa8c1b4645fd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 21/49] fix: image size derived from one dimension ignores
 paddings of the box

---
 elsie/boxtree/layout.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index 7de68a5..bf84328 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -220,7 +220,8 @@ class Layout:
             self.ensure_height(image_height)
             return
         minx, miny = self.min_children_size()
-        size_x = max(self._width.min_size, minx)
-        size_y = max(self._height.min_size, miny)
+        # Paddings are not available for the image
+        size_x = max(self._width.min_size - self.p_left - self.p_right, minx)
+        size_y = max(self._height.min_size - self.p_top - self.p_bottom, miny)
         self.ensure_width(size_y * image_width / image_height)
         self.ensure_height(size_x * image_height / image_width)
-- 
2.43.0


From c67b6e8b62fc59bd1a6429cd5ea9f8b07f0f24d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 22/49] fix: text after a hidden element of an SVG image is
 preserved

---
 elsie/render/image.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/elsie/render/image.py b/elsie/render/image.py
index bb50de6..e96f28c 100644
--- a/elsie/render/image.py
+++ b/elsie/render/image.py
@@ -19,6 +19,17 @@ def get_image_steps(root):
     return steps
 
 
+def remove_element(parent, element):
+    if element.tail:
+        # lxml removes also the text that follows the element, preserve it
+        previous = element.getprevious()
+        if previous is not None:
+            previous.tail = (previous.tail or "") + element.tail
+        else:
+            parent.text = (parent.text or "") + element.tail
+    parent.remove(element)
+
+
 def create_image_data(root, step):
     hidden = []
 
@@ -33,5 +44,5 @@ def create_image_data(root, step):
     root = deepcopy(root)
     find_hidden_elements(root)
     for element, child in hidden:
-        element.remove(child)
+        remove_element(element, child)
     return et.tostring(root).decode()
-- 
2.43.0


From 8052b600eb8965b50c030c88b81720ce57356c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 23/49] fix: elements of the first image fragment are hidden in
 later fragments

---
 elsie/boxtree/boxmixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index a64cf3c..f95354a 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -616,7 +616,7 @@ class BoxMixin:
 
         image_data = None
 
-        if image_steps == 1 and not select_fragments:
+        if not fragments and select_fragments is None:
             image_data = et.tostring(root).decode()
 
         def draw(ctx):
-- 
2.43.0


From a1738bd512f16489dc8b1144485b3ca15623943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 24/49] fix: references to renamed SVG identifiers are renamed
 exactly once

---
 elsie/render/backends/svg/utils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/elsie/render/backends/svg/utils.py b/elsie/render/backends/svg/utils.py
index a123166..6036538 100644
--- a/elsie/render/backends/svg/utils.py
+++ b/elsie/render/backends/svg/utils.py
@@ -1,8 +1,12 @@
+import re
 from typing import TYPE_CHECKING, Tuple
 
 if TYPE_CHECKING:
     from ....utils.sxml import Xml
 
+# Reference to an identifier, e.g. in url(#id)
+REFERENCE_REGEX = re.compile(r"""#[^\s#"'();,]+""")
+
 
 def svg_begin(xml, width=None, height=None, view_box=None, inkscape_namespace=False):
     xml.element("svg")
@@ -43,14 +47,17 @@ def rename_ids(root, suffix):
     for e in root.iter():
         e_id = e.get("id")
         if e_id:
-            ids.append("#" + e_id)
+            ids.append(e_id)
             e.set("id", e_id + suffix)
 
+    def rename(match):
+        reference = match.group(0)
+        return reference + suffix if reference[1:] in ids else reference
+
     for e in root.iter():
         for name, value in e.attrib.items():
-            for e_id in ids:
-                if e_id in value:
-                    e.set(name, value.replace(e_id, e_id + suffix))
+            if "#" in value:
+                e.set(name, REFERENCE_REGEX.sub(rename, value))
 
 
 def apply_rotation(xml: "Xml", rotation: float, center: Tuple[float, float]):
-- 
2.43.0


From 3b62e3ece85ecdec0a770474f4c26689cd135fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 25/49] fix: ORA layers and groups without optional attributes

---
 elsie/render/ora.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/elsie/render/ora.py b/elsie/render/ora.py
index 1bd7297..7a16a58 100644
--- a/elsie/render/ora.py
+++ b/elsie/render/ora.py
@@ -62,20 +62,21 @@ def convert_ora_to_svg(filename):
 
 
 def _check_visibility(element):
-    return element.get("visibility") == "visible"
+    # All attributes are optional in OpenRaster
+    return element.get("visibility", "visible") == "visible"
 
 
 def _stack_to_svg(element, xml, sources):
     if not _check_visibility(element):
         return
     xml.element("g")
-    x, y = element.get("x"), element.get("y")
+    x, y = element.get("x", "0"), element.get("y", "0")
     if x != "0" or y != "0":
         xml.set("transform", "translate({}, {})".format(x, y))
-    opacity = float(element.get("opacity"))
+    opacity = float(element.get("opacity", 1))
     if opacity < 0.9999:
         xml.set("opacity", opacity)
-    xml.set("inkscape:label", element.get("name"))
+    xml.set("inkscape:label", element.get("name", ""))
     _children_to_svg(element, xml, sources)
     xml.close("g")
 
@@ -87,14 +88,14 @@ def _layer_to_svg(element, xml, sources):
     if source is None:
         return
     data, mime, x, y, image_width, image_height = source
-    extra_args = [("inkscape:label", element.get("name"))]
-    opacity = float(element.get("opacity"))
-    if opacity is not None and opacity < 0.9999:
+    extra_args = [("inkscape:label", element.get("name", ""))]
+    opacity = float(element.get("opacity", 1))
+    if opacity < 0.9999:
         extra_args.append(("opacity", opacity))
     draw_bitmap(
         xml,
-        float(element.get("x")) + x,
-        float(element.get("y")) + y,
+        float(element.get("x", 0)) + x,
+        float(element.get("y", 0)) + y,
         image_width,
         image_height,
         mime,
-- 
2.43.0


From ba007b9271731b3225445d63c756b36ed89f15d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 26/49] fix: end arrows of smooth quadratic paths follow the
 reflected control point

---
 elsie/shapes/path.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/elsie/shapes/path.py b/elsie/shapes/path.py
index 6c159c9..004546b 100644
--- a/elsie/shapes/path.py
+++ b/elsie/shapes/path.py
@@ -39,6 +39,8 @@ def path_points_for_end_arrow(commands):
             "Current version supports path when last command is 'C', 'S', 'Q' ot 'T' "
             "(got '{}')".format(name)
         )
+    if name == "T" and len(commands) >= 2:
+        return last_smooth_control_point(commands), pairs[-1]
     if len(pairs) >= 2:
         return pairs[-2], pairs[-1]
     if len(commands) >= 2:
@@ -47,5 +49,22 @@ def path_points_for_end_arrow(commands):
         raise Exception("Unsuported commands for end errow")
 
 
+def last_smooth_control_point(commands):
+    """Control point of the last segment of a path that ends with 'T'; the
+    control points of 'T' are reflections of the previous quadratic segment."""
+    current = control = None
+    for name, pairs in commands:
+        if name == "T":
+            for point in pairs:
+                if control is None:
+                    control = current
+                control = (2 * current[0] - control[0], 2 * current[1] - control[1])
+                current = point
+        else:
+            control = pairs[-2] if name == "Q" else None
+            current = pairs[-1]
+    return control
+
+
 def path_update_end_point(commands, point):
     commands[-1][1][-1] = point
-- 
2.43.0


From 14f87708b4b76d1a4a1c1b1e3f580efc7ec36e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 27/49] fix: lengths in inches and picas, reject unknown units
 of SVG lengths

---
 elsie/render/backends/svg/utils.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/svg/utils.py b/elsie/render/backends/svg/utils.py
index 6036538..51ea6a2 100644
--- a/elsie/render/backends/svg/utils.py
+++ b/elsie/render/backends/svg/utils.py
@@ -7,6 +7,11 @@ if TYPE_CHECKING:
 # Reference to an identifier, e.g. in url(#id)
 REFERENCE_REGEX = re.compile(r"""#[^\s#"'();,]+""")
 
+# Number in SVG
+NUMBER_REGEX = re.compile(
+    r"\s*[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\s*"
+)
+
 
 def svg_begin(xml, width=None, height=None, view_box=None, inkscape_namespace=False):
     xml.element("svg")
@@ -37,8 +42,16 @@ def svg_size_to_pixels(text):
         factor = 37.7953
     elif suffix == "pt":
         factor = 1.33333
-    else:
+    elif suffix == "in":
+        factor = 96.0
+    elif suffix == "pc":
+        factor = 16.0
+    elif suffix in ("", "px"):
         factor = 1.0
+    else:
+        raise Exception("Unsupported unit of an SVG length: {!r}".format(suffix))
+    if not NUMBER_REGEX.fullmatch(text):
+        raise Exception("Invalid SVG length: {!r}".format(text + suffix))
     return float(text) * factor
 
 
-- 
2.43.0


From e93f2529791d54a4c9a84ec46595bfd1b9d73cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 28/49] fix: slides can be looked up and named after inserting
 a PDF

---
 elsie/slides/slide.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elsie/slides/slide.py b/elsie/slides/slide.py
index 541636f..0068f6d 100644
--- a/elsie/slides/slide.py
+++ b/elsie/slides/slide.py
@@ -69,6 +69,7 @@ class Slide:
 
 class ExternPdfSlide:
     def __init__(self, filename):
+        self.name = None  # inserted PDFs are not named
         self.filename = os.path.abspath(filename)
 
     def prepare(self):
-- 
2.43.0


From 5058197ddd819ae3fb7ba0c1ede125c90d11bac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 29/49] fix: entries removed from the cache are built again
 when needed

---
 elsie/utils/cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 2ba5f68..025e1d4 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -62,6 +62,7 @@ class FsCache:
     def remove_unused(self):
         for filename in self.cache_files.difference(self.touched_files):
             os.remove(self._full_path(filename))
+            self.cache_files.remove(filename)
 
     def get(self, input_data, data_type, constructor):
         cache_file = self._get_filename(input_data, data_type)
-- 
2.43.0


From 2330b4a6ac2ab236feefd6528c825a60dd9ce8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 30/49] fix: a failed constructor of a cache entry does not
 block later users of the entry

---
 elsie/utils/cache.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 025e1d4..8d2e06e 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -42,21 +42,25 @@ class FsCache:
         with self.lock:
             self.touched_files.add(cache_file)
             condition = self.in_progress.get(cache_file)
-            if condition is not None:
-                if wait_on_collision:
-                    condition.wait()
-                    assert cache_file in self.cache_files
-                return full_path
+            while condition is not None:
+                if not wait_on_collision:
+                    return full_path
+                condition.wait()
+                # The entry is not there if its constructor failed
+                condition = self.in_progress.get(cache_file)
             if cache_file in self.cache_files:
                 return full_path
+            condition = threading.Condition(self.lock)
+            self.in_progress[cache_file] = condition
 
-        condition = threading.Condition(self.lock)
-        self.in_progress[cache_file] = condition
-        constructor(input_data, full_path, data_type)
-        with self.lock:
-            self.cache_files.add(cache_file)
-            del self.in_progress[cache_file]
-            condition.notify_all()
+        try:
+            constructor(input_data, full_path, data_type)
+            with self.lock:
+                self.cache_files.add(cache_file)
+        finally:
+            with self.lock:
+                del self.in_progress[cache_file]
+                condition.notify_all()
         return full_path
 
     def remove_unused(self):
-- 
2.43.0


From b84dc45e49e2558fa71ff9597c889b11d213539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 31/49] fix: unfinished files are not left in the cache

---
 elsie/utils/cache.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 8d2e06e..444324e 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -29,6 +29,10 @@ class FsCache:
     def _full_path(self, filename):
         return os.path.join(self.cache_dir, filename)
 
+    def _temporary_path(self, filename):
+        """Path for writing a file of the cache until it is complete"""
+        return self._full_path("tmp.{}.{}".format(os.getpid(), filename))
+
     def ensure_by_file(self, filename, data_type, constructor, wait_on_collision=True):
         with open(filename, "rb") as f:
             data = f.read()
@@ -54,7 +58,9 @@ class FsCache:
             self.in_progress[cache_file] = condition
 
         try:
-            constructor(input_data, full_path, data_type)
+            tmp_path = self._temporary_path(cache_file)
+            constructor(input_data, tmp_path, data_type)
+            os.replace(tmp_path, full_path)
             with self.lock:
                 self.cache_files.add(cache_file)
         finally:
@@ -78,8 +84,10 @@ class FsCache:
                 return f.read()
 
         result = constructor(input_data)
-        with open(full_path, "w") as f:
+        tmp_path = self._temporary_path(cache_file)
+        with open(tmp_path, "w") as f:
             f.write(result)
+        os.replace(tmp_path, full_path)
         self.cache_files.add(cache_file)
         return result
 
-- 
2.43.0


From 057316a01c4df5448c3131892bf4f40ada847af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 32/49] fix: slide postprocessing works with inserted PDFs

---
 elsie/slides/slidedeck.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/slides/slidedeck.py b/elsie/slides/slidedeck.py
index e948eca..a2497ee 100644
--- a/elsie/slides/slidedeck.py
+++ b/elsie/slides/slidedeck.py
@@ -331,7 +331,9 @@ class SlideDeck(StyleContainer):
                 )
 
         if slide_postprocessing:
-            slide_postprocessing([slide.box() for slide in select_slides])
+            slide_postprocessing(
+                [slide.box() for slide in select_slides if isinstance(slide, Slide)]
+            )
 
         if prune_cache:
             self.backend.prune_cache()
-- 
2.43.0


From 1d9ba397128c2018c7c1c84573727b11c178205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 33/49] fix: grouped pages keep the order with inserted PDFs

---
 elsie/render/render.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elsie/render/render.py b/elsie/render/render.py
index 62574f7..c93dd22 100644
--- a/elsie/render/render.py
+++ b/elsie/render/render.py
@@ -91,6 +91,10 @@ def per_page_grouping(backend, units, count_x, count_y, width, height):
     for unit in units:
         svg = unit.get_svg()
         if svg is None:
+            # The page in progress comes before the inserted page
+            close()
+            xml = new()
+            idx = 0
             new_units.append(unit)
             continue
 
-- 
2.43.0


From f56f8d803c2e8145c70e5f3c0d1c6cd3553c28f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:02 +0000
Subject: [PATCH 34/49] fix: interrupted saving does not damage saved text
 measurements

---
 elsie/render/backends/svg/backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 3135c28..6a018c0 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -137,5 +137,8 @@ class InkscapeBackend(Backend):
             "inkscape": self.inkscape_version,
             "queries": list(cache.items()),
         }
-        with open(cache_file, "w") as f:
+        # Saved measurements stay readable when the writing is interrupted
+        tmp_file = f"{cache_file}.{os.getpid()}.tmp"
+        with open(tmp_file, "w") as f:
             json.dump(cache_config, f)
+        os.replace(tmp_file, cache_file)
-- 
2.43.0


From 48491c4dbfa6ad0ba9f1e3ce22f61b7225c120c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 35/49] fix: texts scaled to fit keep their scale in repeated
 renderings

---
 elsie/text/textboxitem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textboxitem.py b/elsie/text/textboxitem.py
index b92b1c4..0d64043 100644
--- a/elsie/text/textboxitem.py
+++ b/elsie/text/textboxitem.py
@@ -34,9 +34,10 @@ class TextBoxItem(BoxItem):
         self._make_query(box.slide.slides.backend)
 
         if scale_to_fit:
+            text_size = self._text_size  # size without scaling
 
             def callback(rect):
-                tw, th = self._text_size
+                tw, th = text_size
                 if tw > 0.00001 and th > 0.00001:
                     scale = min(rect.width / tw, rect.height / th)
                     self._text_size = (tw * scale, th * scale)
-- 
2.43.0


From cfd8e0947c9534edc637c0dac4c51e0d4202deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:06 +0000
Subject: [PATCH 36/49] fix: documents opened in Inkscape are closed when a
 query fails

---
 elsie/render/inkscape.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 87ef6b6..e2854bd 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -11,8 +11,10 @@ def svg_file_input(inkscape, svg: str, binary=False):
         f.write(svg)
         f.flush()
         inkscape.run_command(f"file-open:{f.name}")
-        yield
-        inkscape.run_command("file-close")
+        try:
+            yield
+        finally:
+            inkscape.run_command("file-close")
 
 
 class InkscapeShell:
-- 
2.43.0


From a0eb05825680134cdc85fc5c8818d674ef32ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 37/49] fix: terminated Inkscape is reported instead of waiting
 for it forever

---
 elsie/render/inkscape.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index e2854bd..b7be995 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -39,6 +39,11 @@ class InkscapeShell:
         stdout = self.process.stdout
         while True:
             character = stdout.read(1)
+            if not character:
+                raise Exception(
+                    "Inkscape terminated unexpectedly, its last output: "
+                    + repr("".join(chars))
+                )
             if (
                 character == " "
                 and chars
-- 
2.43.0


From 24550cccd6e951500fc727dadfdb1cc4fb60d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 38/49] fix: messages of Inkscape on its error stream do not
 block it

---
 elsie/render/inkscape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index b7be995..819ca8b 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -24,7 +24,7 @@ class InkscapeShell:
             [inkscape_bin, "--shell"],
             stdout=subprocess.PIPE,
             stdin=subprocess.PIPE,
-            stderr=subprocess.PIPE,
+            stderr=subprocess.DEVNULL,
             universal_newlines=True,
         )
         self.wait_for_prompt()
-- 
2.43.0


From 541e8ed69986e55c39ced0641dd391f7d162ce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 39/49] fix: label functions of lists get their own list of
 counters

---
 elsie/ext/list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/ext/list.py b/elsie/ext/list.py
index 82f8e3a..3c810ef 100644
--- a/elsie/ext/list.py
+++ b/elsie/ext/list.py
@@ -147,7 +147,7 @@ class ListBuilder:
         if actual_label is not None:
             label_box = box.box(y="[0%]")
             if callable(actual_label):
-                actual_label(label_box, self.level)
+                actual_label(label_box, list(self.level))
             elif isinstance(actual_label, str):
                 label_box.text(actual_label)
             else:
-- 
2.43.0


From dd8a08c2e411f622d946dae85e2659a52638a98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:21 +0000
Subject: [PATCH 40/49] fix: backslash-escaped characters of Markdown are
 printed

---
 elsie/ext/markdown.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index 9047981..73869fd 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -1,6 +1,13 @@
 import marko
 from marko.block import BlankLine, FencedCode, Heading, List, ListItem, Paragraph, Quote
-from marko.inline import Emphasis, LineBreak, Link, RawText, StrongEmphasis
+from marko.inline import (
+    Emphasis,
+    LineBreak,
+    Link,
+    Literal,
+    RawText,
+    StrongEmphasis,
+)
 
 from ..boxtree.box import Box
 from ..text.textparser import trim_indent
@@ -50,6 +57,9 @@ def get_raw_text(ctx: MarkdownContext, node) -> str:
     for child in node.children:
         if isinstance(child, RawText):
             text += child.children
+        elif isinstance(child, Literal):
+            # Backslash-escaped character, it must not start an inline style
+            text += child.children.replace(ctx.escape_char, ctx.escape_char * 2)
         elif isinstance(child, Emphasis):
             text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_ITALIC_STYLE)
         elif isinstance(child, StrongEmphasis):
-- 
2.43.0


From e9d03f5f2c0c640416a54458d889b0d4560fc27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 41/49] fix: lists in a quote inside a Markdown list item stay
 in the quote

---
 elsie/ext/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index 73869fd..a8512e7 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -111,7 +111,7 @@ def build_blank_line(ctx: MarkdownContext, blank_line: BlankLine):
 def build_quote(ctx: MarkdownContext, quote: Quote):
     container = ctx.box.sbox()
     container.update_style("default", container.get_style(MD_BLOCKQUOTE_STYLE))
-    parent_ctx = ctx.copy(box=container)
+    parent_ctx = ctx.copy(box=container, active_list=None)
     for child in quote.children:
         build(parent_ctx, child)
 
-- 
2.43.0


From 91d155feccbf7e21e9281d67aa3eac0d67c8c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:45 +0000
Subject: [PATCH 42/49] fix: nested lists may start with zero

---
 elsie/ext/list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/ext/list.py b/elsie/ext/list.py
index 3c810ef..ff7ef05 100644
--- a/elsie/ext/list.py
+++ b/elsie/ext/list.py
@@ -158,7 +158,7 @@ class ListBuilder:
         self, default_label, start=None, indent=None, label=None, level=None, **box_args
     ):
         start = start if start is not None else 1
-        assert start >= 1
+        assert start >= 0
         indent = indent if indent is not None else self.default_indent
         level = level if level is not None else self.level
 
-- 
2.43.0


From 0f3129974f8426896620b368c056880944f664b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 43/49] fix: underlined (setext) Markdown headings are rendered

---
 elsie/ext/markdown.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index a8512e7..edae646 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -1,5 +1,14 @@
 import marko
-from marko.block import BlankLine, FencedCode, Heading, List, ListItem, Paragraph, Quote
+from marko.block import (
+    BlankLine,
+    FencedCode,
+    Heading,
+    List,
+    ListItem,
+    Paragraph,
+    Quote,
+    SetextHeading,
+)
 from marko.inline import (
     Emphasis,
     LineBreak,
@@ -141,6 +150,7 @@ def build_list_top(ctx: MarkdownContext, list_node: List):
 
 MD_BUILD_FNS = {
     Heading: build_heading,
+    SetextHeading: build_heading,
     Paragraph: build_paragraph,
     BlankLine: build_blank_line,
     Quote: build_quote,
-- 
2.43.0


From a402f0b8c4e9a9e950e3876c455fa42960fb2b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:11 +0000
Subject: [PATCH 44/49] fix: draw LaTeX with Cairo at its scale

---
 elsie/ext/latex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/ext/latex.py b/elsie/ext/latex.py
index f8c8435..9487523 100644
--- a/elsie/ext/latex.py
+++ b/elsie/ext/latex.py
@@ -77,8 +77,8 @@ def _draw(parent, svg, svg_width, svg_height, scale, ctx):
         svg=svg,
         x=x,
         y=y,
-        width=rect.width,
-        height=rect.height,
+        width=svg_width,
+        height=svg_height,
         scale=scale,
     )
 
-- 
2.43.0


From 5ad4b0abede62043a81627b4591e2b58b628156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 45/49] fix: slides get distinct indices when a slide was
 replaced

---
 elsie/slides/slidedeck.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elsie/slides/slidedeck.py b/elsie/slides/slidedeck.py
index a2497ee..e4d7066 100644
--- a/elsie/slides/slidedeck.py
+++ b/elsie/slides/slidedeck.py
@@ -148,9 +148,14 @@ class SlideDeck(StyleContainer):
 
         self._apply_name_policy(name)
 
+        # Slides get different indices also when a slide was replaced
+        index = max(
+            [len(self._slides)]
+            + [slide.index + 1 for slide in self._slides if isinstance(slide, Slide)]
+        )
         slide = Slide(
             self,
-            len(self._slides),
+            index,
             self.width,
             self.height,
             self._styles.copy(),
-- 
2.43.0


From 1780ae7dc03c20b60942343feabe9478f44a5d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 46/49] fix: a stroke of width zero is not drawn one pixel wide

---
 elsie/render/backends/cairo/draw.py | 3 ++-
 elsie/render/backends/svg/draw.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/draw.py b/elsie/render/backends/cairo/draw.py
index 783d24e..226f414 100644
--- a/elsie/render/backends/cairo/draw.py
+++ b/elsie/render/backends/cairo/draw.py
@@ -39,7 +39,8 @@ def fill_shape(ctx, callback, bg_color):
 
 def stroke_shape(ctx, callback, color, stroke_width=None, stroke_dasharray=None):
     ctx.set_source_rgb(*get_rgb_color(color))
-    stroke_width = stroke_width or 1
+    if stroke_width is None:
+        stroke_width = 1
     ctx.set_line_width(stroke_width)
     if stroke_dasharray:
         ctx.set_dash([float(v) for v in stroke_dasharray.replace(",", " ").split()])
diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 8dbae7b..789412f 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -34,7 +34,8 @@ def set_paint_style(
         styles.append("fill:none")
 
     if color:
-        stroke_width = stroke_width or 1
+        if stroke_width is None:
+            stroke_width = 1
         styles.append(f"stroke:{color}")
         styles.append(f"stroke-width:{stroke_width}")
         if stroke_dasharray:
-- 
2.43.0


From 1911b12bbf5176f8c4059825842c73895a049c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:40 +0000
Subject: [PATCH 47/49] fix: lines of text drawn with Cairo advance by the font
 size times the line spacing

---
 elsie/render/backends/cairo/rcontext.py | 13 +++----------
 elsie/render/backends/cairo/text.py     | 14 +++++++-------
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 9e914c7..06057db 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -75,9 +75,8 @@ class CairoRenderingContext(RenderingContext):
         else:
             assert False
 
-        self.line_scaling = 1.0
         if viewbox:
-            self.line_scaling = apply_viewbox(self.ctx, width, height, viewbox)
+            apply_viewbox(self.ctx, width, height, viewbox)
 
         self.pctx = pangocairocffi.create_context(self.reference_ctx)
 
@@ -166,9 +165,7 @@ class CairoRenderingContext(RenderingContext):
             fill_stroke_shape(self.ctx, draw, **kwargs)
 
     def compute_text_extents(self, parsed_text, style: TextStyle, styles) -> Rect:
-        layout = build_layout(
-            self.ctx, self.pctx, parsed_text, style, styles, RESOLUTION_SCALE
-        )
+        layout = build_layout(self.ctx, self.pctx, parsed_text, style, styles)
         return get_extents(layout)
 
     def compute_subtext_extents(
@@ -176,9 +173,7 @@ class CairoRenderingContext(RenderingContext):
     ) -> Rect:
         from ....text.textboxitem import text_x_in_rect
 
-        layout = build_layout(
-            self.ctx, self.pctx, parsed_text, style, styles, RESOLUTION_SCALE
-        )
+        layout = build_layout(self.ctx, self.pctx, parsed_text, style, styles)
         extents = get_extents(layout)
         start_x = text_x_in_rect(Rect(x=0, width=extents.width), style)
         x, width = compute_subtext_extents(layout, parsed_text, id_index)
@@ -204,8 +199,6 @@ class CairoRenderingContext(RenderingContext):
                 parsed_text,
                 style,
                 styles,
-                resolution_scale=RESOLUTION_SCALE,
-                spacing_scale=self.line_scaling,
                 text_scale=scale,
             )
             layout.set_width(to_pango_units(rect.width))
diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index 1e2e265..05b0685 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -114,7 +114,7 @@ def get_text_and_attributes(
     return text, attr_list
 
 
-def get_text_height(pctx: pangocffi.Context, style: TextStyle, resolution_scale: float):
+def get_text_height(pctx: pangocffi.Context, style: TextStyle):
     font = FontDescription()
     font.set_family(style.font)
     font.set_absolute_size(to_pango_units(style.size))
@@ -124,7 +124,7 @@ def get_text_height(pctx: pangocffi.Context, style: TextStyle, resolution_scale:
 
     descent = from_pango_units(pangocffi.pango.pango_font_metrics_get_descent(ret))
     ascent = from_pango_units(pangocffi.pango.pango_font_metrics_get_ascent(ret))
-    return (ascent + descent) * resolution_scale
+    return ascent + descent
 
 
 def build_layout(
@@ -133,9 +133,7 @@ def build_layout(
     parsed_text,
     style: TextStyle,
     styles,
-    resolution_scale: float,
-    spacing_scale: float = 1.0,
-    text_scale: float = 1.0,
+    text_scale: float = None,
 ) -> pangocffi.Layout:
     # TODO: fix letter spacing
     style = styles["default"].compose(style)
@@ -147,11 +145,13 @@ def build_layout(
     layout.set_text(text)
     layout.set_attributes(attributes)
 
-    height = get_text_height(pctx, style, resolution_scale)
+    height = get_text_height(pctx, style)
 
     assert style.line_spacing >= 1.0
     spacing = (style.line_spacing * style.size) - height
-    layout.set_spacing(to_pango_units(spacing * spacing_scale))
+    if text_scale is not None:
+        spacing *= text_scale
+    layout.set_spacing(to_pango_units(spacing))
 
     return layout
 
-- 
2.43.0


From b6d772d21304ea3990c22b2bfa5cd2131ce89d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:43 +0000
Subject: [PATCH 48/49] fix: highlight code whose token types have no style of
 their own

---
 elsie/boxtree/boxmixin.py |  5 ++++-
 elsie/text/highlight.py   | 19 +++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index f95354a..edf87ad 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -733,7 +733,10 @@ class BoxMixin:
                 text = tokens_to_text_without_style(ptext)
             # Newlines inside inline styles have to be preserved
             parsed_text = highlight_code(
-                text, language, strip_newlines=not use_styles
+                text,
+                language,
+                strip_newlines=not use_styles,
+                styles=self._get_box()._styles,
             )
             if use_styles:
                 parsed_text = tokens_merge(parsed_text, ptext)
diff --git a/elsie/text/highlight.py b/elsie/text/highlight.py
index a040307..65d1a06 100644
--- a/elsie/text/highlight.py
+++ b/elsie/text/highlight.py
@@ -8,9 +8,20 @@ from .textstyle import TextStyle
 
 
 class MyFormatter(Formatter):
-    def __init__(self):
+    def __init__(self, styles=None):
         super().__init__()
         self.stream = []
+        self.styles = styles
+
+    def style_name(self, ttype):
+        # Lexers may use token types without a style, their parent type is used then
+        while (
+            self.styles is not None
+            and ttype.parent is not None
+            and "pygments-" + str(ttype) not in self.styles
+        ):
+            ttype = ttype.parent
+        return "pygments-" + str(ttype)
 
     def format(self, tokensource, outfile):
         stream = self.stream
@@ -18,7 +29,7 @@ class MyFormatter(Formatter):
             if value == "\n":
                 stream.append(NEWLINE_1)
             else:
-                stream.append(("begin", "pygments-" + str(ttype)))
+                stream.append(("begin", self.style_name(ttype)))
                 if "\n" in value:
                     for t in value.split("\n"):
                         if t:
@@ -30,9 +41,9 @@ class MyFormatter(Formatter):
                 stream.append(("end", None))
 
 
-def highlight_code(code, language, strip_newlines=True):
+def highlight_code(code, language, strip_newlines=True, styles=None):
     lexer = get_lexer_by_name(language, stripnl=strip_newlines)
-    formatter = MyFormatter()
+    formatter = MyFormatter(styles)
     highlight(code, lexer, formatter)
     return normalize_tokens(formatter.stream)
 
-- 
2.43.0


From 51d6b944acdf0a671cd40e50520e5e758d84394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:50 +0000
Subject: [PATCH 49/49] fix: ellipses and images without area are not drawn
 with Cairo

---
 elsie/render/backends/cairo/rcontext.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 06057db..3db613a 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -110,6 +110,8 @@ class CairoRenderingContext(RenderingContext):
     def draw_ellipse(
         self, rect: Rect, rotation=None, color=None, bg_color=None, **kwargs
     ):
+        if not rect.width or not rect.height:
+            return  # Not drawn in SVG, too
         dim_larger = rect.width
         dim_smaller = rect.height
         if dim_larger < dim_smaller:
@@ -211,6 +213,8 @@ class CairoRenderingContext(RenderingContext):
 
     def draw_bitmap(self, x, y, width, height, data, rotation=None, **kwargs):
         assert isinstance(data, bytes)
+        if not width or not height:
+            return
         image = Image.open(io.BytesIO(data))
         if image.mode != "RGBA":
             image = image.convert("RGBA")
@@ -239,6 +243,8 @@ class CairoRenderingContext(RenderingContext):
         rotation=None,
         **kwargs,
     ):
+        if not width or not height:
+            return
         root = et.fromstring(svg)
         normalized = normalize_svg(root)
         normalized_svg = et.tostring(normalized, encoding="utf8")
-- 
2.43.0

