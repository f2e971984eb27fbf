From fa63395a8ce2cf11ea0f0cbffce88de7118d7d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 01/88] fix: the 'k' operator sets the non-stroking colour, not
 the stroking one

---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index cb6838f..1134d7b 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -318,7 +318,7 @@ def set_stroke_cmyk(stack: PDFStateStack, c, m, y, k) -> PDFStateStack:
 # setcmyk-non-stroking
 @PDFCommands.add('k')
 def set_nonstroke_cmyk(stack: PDFStateStack, c, m, y, k) -> PDFStateStack:
-    stack.graphics.set_stroke_color(
+    stack.graphics.set_nostroke_color(
         stack.colorspace_map['DeviceCMYK'], 
         c, m, y, k
     )
-- 
2.43.0


From eea0bc2b0dfb9a7e357f855382c5739ee1146250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 02/88] fix: the double-quote operator moves to the next line
 before showing its text

---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 1134d7b..3f0171e 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -471,7 +471,7 @@ def add_quoted_char_blocks(stack: PDFStateStack, b: bytes) -> PDFStateStack:
 def add_dbquoted_char_blocks(stack: PDFStateStack, wordspace, charspace, b) -> PDFStateStack:
     stack.text.wordspace = wordspace
     stack.text.charspace = charspace
-    return add_char_blocks(stack, [b])
+    return add_char_blocks(nextline(stack), [b])
 
 @PDFCommands.add('EI')
 def insert_image(stack: PDFStateStack, obj) -> PDFStateStack:
-- 
2.43.0


From 444230ccb851ab7c4dd4cfa02c3acec50d766844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 03/88] fix: a closed four-sided path that is no upright
 rectangle becomes a curve item, not None

---
 .../commands/state/layout/__init__.py         | 52 +++++++++----------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 624ce81..11ad663 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -82,32 +82,32 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
                 stroke=gstate.scolor, 
                 fill=gstate.ncolor,
             )
-    else:
-        (x0, y0, x1, y1) = (INF, INF, -INF, -INF)
-        for path in paths:
-            if path.method in [CurvePath.METHOD.MOVE_TO, CurvePath.METHOD.LINE_TO]:
-                x0 = min(x0, path.points[0].x)
-                y0 = min(y0, path.points[0].y)
-                x1 = max(x1, path.points[0].x)
-                y1 = max(y1, path.points[0].y)
-            elif path.method in [CurvePath.METHOD.CURVE_BOTH_TO]:
-                x0 = min(x0, path.points[2].x)
-                y0 = min(y0, path.points[2].y)
-                x1 = max(x1, path.points[2].x)
-                y1 = max(y1, path.points[2].y)
-            elif path.method in [CurvePath.METHOD.CURVE_NEXT_TO, CurvePath.METHOD.CURVE_FIRST_TO]:
-                x0 = min(x0, path.points[1].x)
-                y0 = min(y0, path.points[1].y)
-                x1 = max(x1, path.points[1].x)
-                y1 = max(y1, path.points[1].y)
-        return LTCurve(
-            linewidth=gstate.linewidth, 
-            paths=paths,
-            bbox=Bbox(x0,y0,x1,y1), 
-            evenodd=evenodd,
-            stroke=gstate.scolor, 
-            fill=gstate.ncolor
-        )
+    # any other shape, a four-sided path that is no upright rectangle included
+    (x0, y0, x1, y1) = (INF, INF, -INF, -INF)
+    for path in paths:
+        if path.method in [CurvePath.METHOD.MOVE_TO, CurvePath.METHOD.LINE_TO]:
+            x0 = min(x0, path.points[0].x)
+            y0 = min(y0, path.points[0].y)
+            x1 = max(x1, path.points[0].x)
+            y1 = max(y1, path.points[0].y)
+        elif path.method in [CurvePath.METHOD.CURVE_BOTH_TO]:
+            x0 = min(x0, path.points[2].x)
+            y0 = min(y0, path.points[2].y)
+            x1 = max(x1, path.points[2].x)
+            y1 = max(y1, path.points[2].y)
+        elif path.method in [CurvePath.METHOD.CURVE_NEXT_TO, CurvePath.METHOD.CURVE_FIRST_TO]:
+            x0 = min(x0, path.points[1].x)
+            y0 = min(y0, path.points[1].y)
+            x1 = max(x1, path.points[1].x)
+            y1 = max(y1, path.points[1].y)
+    return LTCurve(
+        linewidth=gstate.linewidth, 
+        paths=paths,
+        bbox=Bbox(x0,y0,x1,y1), 
+        evenodd=evenodd,
+        stroke=gstate.scolor, 
+        fill=gstate.ncolor
+    )
 
 def make_image(obj, ctm):
     matrix = mult_matrix(MATRIX_IDENTITY, ctm)
-- 
2.43.0


From d4b6166ef8de07f101141734d909c529db105774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 04/88] fix: text objects without any character no longer yield
 None, a box-less block or an IndexError

---
 pdfmajor/interpreter/commands/commands.py                 | 3 ++-
 pdfmajor/interpreter/commands/state/layout/LTTextBlock.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 3f0171e..0630935 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -359,7 +359,8 @@ def begin_text(stack: PDFStateStack) -> PDFStateStack:
 
 @PDFCommands.add('ET')
 def end_text(stack: PDFStateStack) -> PDFStateStack:
-    stack.complete_layout_items.append(stack.current_textblock)
+    if stack.current_textblock is not None and len(stack.current_textblock) > 0:
+        stack.complete_layout_items.append(stack.current_textblock)
     stack.current_textblock = None
     return stack
 
diff --git a/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py b/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
index 517c8b7..4d5a386 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
@@ -22,6 +22,9 @@ class LTTextBlock(LTContainer):
     
     def add_char_block(self, seq: bytearray, ctm: tuple, textstate: PDFTextState, color: PDFColor):
         (char_meta_datas, textstate, color) = decode_text_seq(seq, ctm, textstate, color)
+        if not char_meta_datas:
+            # only spacing, or an empty string: nothing to place
+            return
         char_block = LTCharBlock(
             chars=char_meta_datas,
             color=color,
-- 
2.43.0


From c27469bf7faa40aa67fd3fb8ecee07ea4edcedbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 05/88] fix: ignore_bad_chars also holds inside form XObjects

---
 pdfmajor/interpreter/commands/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 8eb3c73..9d61de0 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -56,7 +56,8 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                     state=PDFStateStack(),
                     ctm=complete_item.t_matrix,
                     resources=complete_item.resources,
-                    font_cache=font_cache
+                    font_cache=font_cache,
+                    ignore_bad_chars=state.text.ignore_bad_chars
                 )
                 xobj_state.graphics = state.graphics.copy()
                 for item in process_command_stream(
-- 
2.43.0


From 8c1d796839b4f0a0307bfa7d281a4bf7bcd6b260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 06/88] fix: a form XObject's Matrix is applied, and its BBox
 read as corners, when placing it

---
 pdfmajor/interpreter/commands/state/layout/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 11ad663..229e401 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -121,14 +121,15 @@ def make_image(obj, ctm):
     )
 
 def make_xobject(obj, bbox, ctm, matrix, resources):
-    (x, y, w, h) = bbox
+    (x0, y0, x1, y1) = bbox
+    matrix = mult_matrix(matrix, ctm)
     return LTXObject(
         name=str(id(obj)),
         bbox=Bbox.from_points([
             apply_matrix_pt(matrix, (p, q))
-            for (p, q) in ((x, y), (x+w, y), (x, y+h), (x+w, y+h))
+            for (p, q) in ((x0, y0), (x1, y0), (x0, y1), (x1, y1))
         ]),
         xobj_stream=obj,
         resources=resources,
-        t_matrix = ctm
+        t_matrix = matrix
     )
\ No newline at end of file
-- 
2.43.0


From 6102a4f69e5bc2f0eefdb4c12038bfa10fc3f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 07/88] fix: error paths raised NameError: define and import
 the exceptions they name

---
 pdfmajor/execptions.py                            | 9 +++++++++
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 2 ++
 pdfmajor/parser/PDFDocument/PDFXRef.py            | 2 +-
 pdfmajor/parser/PDFDocument/__init__.py           | 3 ++-
 pdfmajor/parser/PDFStream/__init__.py             | 2 ++
 pdfmajor/parser/PDFStream/util.py                 | 2 ++
 6 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/execptions.py b/pdfmajor/execptions.py
index fa8cdf6..7a9de88 100644
--- a/pdfmajor/execptions.py
+++ b/pdfmajor/execptions.py
@@ -63,6 +63,15 @@ class PDFTypeError(PDFException):
 class PDFSyntaxError(PDFException):
     pass
 
+class PDFNotImplementedError(PDFException):
+    pass
+
+class PDFEncryptionError(PDFException):
+    pass
+
+class PDFPasswordIncorrect(PDFEncryptionError):
+    pass
+
 class PDFTextExtractionNotAllowed(PDFException):
     pass
 
diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 71b9bc1..9a5a0c8 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -3,6 +3,8 @@ import hashlib as md5
 from Crypto.Cipher import ARC4, AES
 from Crypto.Hash import SHA256
 
+from pdfmajor.execptions import PDFEncryptionError, PDFPasswordIncorrect
+
 from ..PDFStream import int_value, str_value, dict_value
 from ..PSStackParser import literal_name
 from ...utils import int2byte, struct
diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 07b507e..4b2b3d1 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -2,7 +2,7 @@ import re
 from logging import getLogger
 from typing import Tuple, Optional, Dict
 
-from pdfmajor.execptions import PSEOF, PDFSyntaxError
+from pdfmajor.execptions import PSEOF, PDFSyntaxError, PDFNoValidXRef
 
 from ...utils import settings, choplist, nunpack
 from ..PSStackParser import KWD
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 44790cb..55fe1f7 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -12,7 +12,8 @@ from pdfmajor.execptions import (
     PSEOF,
     PDFObjectNotFound, 
     PDFTypeError,
-    PDFSyntaxError
+    PDFSyntaxError,
+    PDFEncryptionError
 )
 
 from ...utils import settings, choplist, decode_text
diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 82ec8c0..a86ede8 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -1,5 +1,7 @@
 import zlib
 
+from pdfmajor.execptions import PDFException, PDFTypeError, PDFNotImplementedError
+
 from ...utils import lzwdecode
 from ...utils import ascii85decode, asciihexdecode, apply_png_predictor
 
diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index eae568f..d861af4 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -1,3 +1,5 @@
+from pdfmajor.execptions import PDFTypeError
+
 from .PDFObjRef import PDFObjRef
 from ...utils import settings, isnumber, int2byte
 
-- 
2.43.0


From d2f093c209e94d2cccbfa28b41ca651fe15c5f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 08/88] fix: leftovers of Python 2 (iteritems, tostring,
 unicode) that fail on Python 3

---
 pdfmajor/parser/PDFStream/ccitt.py | 2 +-
 pdfmajor/parser/PDFStream/util.py  | 2 +-
 pdfmajor/parser/cmapdb/__init__.py | 4 ++--
 pdfmajor/utils/generic.py          | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index e1d47b9..b58afb5 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -541,7 +541,7 @@ class CCITTFaxDecoder(CCITTG4Parser):
         for (i, b) in enumerate(bits):
             if b:
                 bytes[i//8] += (128, 64, 32, 16, 8, 4, 2, 1)[i % 8]
-        self._buf += bytes.tostring()
+        self._buf += bytes.tobytes()
         return
 
 
diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index d861af4..c16ca8f 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -30,7 +30,7 @@ def resolve_all(x, default=None):
     if isinstance(x, list):
         x = [resolve_all(v, default=default) for v in x]
     elif isinstance(x, dict):
-        for (k, v) in x.iteritems():
+        for (k, v) in x.items():
             x[k] = resolve_all(v, default=default)
     return x
 
diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 68d9cff..3ac0678 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -77,7 +77,7 @@ class CMap(CMapBase):
         assert isinstance(cmap, CMap), str(type(cmap))
 
         def copy(dst, src):
-            for (k, v) in src.iteritems():
+            for (k, v) in src.items():
                 if isinstance(v, dict):
                     d = {}
                     dst[k] = d
@@ -104,7 +104,7 @@ class CMap(CMapBase):
         if code2cid is None:
             code2cid = self.code2cid
             code = ()
-        for (k, v) in sorted(code2cid.iteritems()):
+        for (k, v) in sorted(code2cid.items()):
             c = code+(k,)
             if isinstance(v, int):
                 out.write('code %r = cid %d\n' % (c, v))
diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index e6e3149..1dedd22 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -12,7 +12,7 @@ def make_compat_bytes(in_str):
 
 def make_compat_str(in_str):
     "In Py2, does nothing. In Py3, converts to string, guessing encoding."
-    assert isinstance(in_str, (bytes, str, unicode)), str(type(in_str))
+    assert isinstance(in_str, (bytes, str)), str(type(in_str))
     if isinstance(in_str, bytes):
         enc = chardet.detect(in_str)
         in_str = in_str.decode(enc['encoding'])
-- 
2.43.0


From 54db87466ec47a9c735a25108b61000ee8e2c4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 09/88] fix: character spacing follows every glyph, not only
 those with another one behind in the same operand

---
 .../commands/state/layout/utils/textdecoder.py        | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index 816175f..56e4b46 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -22,31 +22,26 @@ def decode_text_seq(seq: bytearray, ctm: tuple, textstate: PDFTextState, color:
 
 def __render_string_along(idx: int, seq: bytearray, 
     textstate: PDFTextState, dxscale: float, color: PDFColor):
-    needcharspace = False
     char_meta_datas = []
     for obj in seq:
         if isnumber(obj):
             textstate.linematrix[idx] -= obj*dxscale
-            needcharspace = True
         else:
             for cid in textstate.font.decode(obj):
-                if needcharspace:
-                    textstate.linematrix[idx] += textstate.charspace
-                
                 text = textstate.to_unichr(cid)
                 assert isinstance(text, str), str(type(text))
 
                 matrix = translate_matrix(textstate.matrix, textstate.linematrix)
                 adv, bbox = __compute_char_bbox(matrix, cid, textstate)
-                textstate.linematrix[idx] += adv
+                # PDF reference 5.3.3: every glyph is followed by the character spacing
+                textstate.linematrix[idx] += adv + textstate.charspace
 
                 char_meta_datas.append(
                     ( text, bbox )
                 )
                 if cid == 32 and textstate.wordspace:
                     textstate.linematrix[idx] += textstate.wordspace
-                needcharspace = True
-                
+
     return (char_meta_datas, textstate, color)
 
 def __compute_char_bbox(matrix, char_id: int, textstate: PDFTextState):
-- 
2.43.0


From da1aac41e57364a03f7165a333b4e57394035a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 10/88] fix: horizontal scaling no longer squeezes vertical
 writing

---
 .../interpreter/commands/state/layout/utils/textdecoder.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index 56e4b46..6edbfa9 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -3,7 +3,11 @@ from ....state import PDFTextState, PDFColor
 
 def decode_text_seq(seq: bytearray, ctm: tuple, textstate: PDFTextState, color: PDFColor):
     textstate.matrix = mult_matrix(textstate.matrix, ctm)
-    textstate.scaling = textstate.scaling * .01
+    if textstate.font.is_vertical():
+        # PDF reference 5.2.3: horizontal scaling has no effect in vertical writing
+        textstate.scaling = 1
+    else:
+        textstate.scaling = textstate.scaling * .01
     textstate.charspace = textstate.charspace * textstate.scaling
     textstate.wordspace = textstate.wordspace * textstate.scaling
     
-- 
2.43.0


From e498a6e1419dab4955530c63b92395bd49332529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 11/88] fix: pages stay readable after the file is closed, and
 an abandoned pass no longer truncates later ones

---
 pdfmajor/interpreter/__init__.py | 37 +++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/pdfmajor/interpreter/__init__.py b/pdfmajor/interpreter/__init__.py
index dcb4d32..3797c55 100644
--- a/pdfmajor/interpreter/__init__.py
+++ b/pdfmajor/interpreter/__init__.py
@@ -1,3 +1,4 @@
+from io import BytesIO
 from typing import List
 
 from pdfmajor.execptions import EmptyDocumentError
@@ -43,25 +44,31 @@ class PDFInterpreter:
     def __load_pages(self):
         set_log_level(self.debug_level)
         log.info("Opening file...")
+        # The content of a page is read when the page is iterated, which may be
+        # after the last page was loaded, so keep the data and not the file open.
         with open(self.input_file_path, 'rb') as input_file:
-            font_cache = {}
-            log.info("Parsing file...")
-            pages = PDFPage.get_pages(
-                input_file, 
-                pagenos=self.pagenos, 
-                maxpages=self.maxpages, 
-                password=self.password, 
-                caching=self.caching, 
-                check_extractable=self.check_extractable
-            )
-            for page_num, page in enumerate(pages):
-                self.__pages.append(PageInterpreter(page, page_num, font_cache, ignore_bad_chars=self.ignore_bad_chars))
-                yield self.__pages[-1]
-            log.info(f"Done Reading {len(self.__pages)} pages.")
+            input_data = BytesIO(input_file.read())
+        font_cache = {}
+        loaded = []
+        log.info("Parsing file...")
+        pages = PDFPage.get_pages(
+            input_data, 
+            pagenos=self.pagenos, 
+            maxpages=self.maxpages, 
+            password=self.password, 
+            caching=self.caching, 
+            check_extractable=self.check_extractable
+        )
+        for page_num, page in enumerate(pages):
+            loaded.append(PageInterpreter(page, page_num, font_cache, ignore_bad_chars=self.ignore_bad_chars))
+            yield loaded[-1]
+        log.info(f"Done Reading {len(loaded)} pages.")
         set_log_level(logging.WARNING)
         
-        if len(self.__pages) == 0:
+        if len(loaded) == 0:
             raise EmptyDocumentError("No pages found in pdf-file")
+        # only a complete pass is remembered
+        self.__pages = loaded
     
     def __iter__(self):
         if len(self.__pages) > 0:
-- 
2.43.0


From cfc21e56be6534c927c14934807d391e55a2fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 12/88] fix: iterating a page a second time starts from a fresh
 state

---
 pdfmajor/interpreter/PageInterpreter.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pdfmajor/interpreter/PageInterpreter.py b/pdfmajor/interpreter/PageInterpreter.py
index 1471dc8..361a770 100644
--- a/pdfmajor/interpreter/PageInterpreter.py
+++ b/pdfmajor/interpreter/PageInterpreter.py
@@ -24,21 +24,22 @@ class PageInterpreter:
         self.height = y1-y0
         self.width = x1-x0
 
-        # Init State
-        self.state: PDFStateStack = prep_state(
+        self.ctm = ctm
+        self.ignore_bad_chars = ignore_bad_chars
+
+    def __iter__(self):
+        # every pass over the page starts from a fresh state
+        state: PDFStateStack = prep_state(
             PDFStateStack(), 
-            ctm=ctm, 
-            resources=page.resources, 
+            ctm=self.ctm, 
+            resources=self.page.resources, 
             font_cache=self.font_cache,
-            ignore_bad_chars=ignore_bad_chars
+            ignore_bad_chars=self.ignore_bad_chars
         )
-
-    
-    def __iter__(self):
         for item in process_command_stream(
             streams=list_value(self.page.contents),
             font_cache=self.font_cache,
-            state=self.state
+            state=state
         ):
             yield item
 
-- 
2.43.0


From 2e19ab17c033657512c0c22c285105e22c5f0c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 13/88] fix: size of rotated pages, and media boxes whose
 corners come in another order

---
 pdfmajor/interpreter/PageInterpreter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfmajor/interpreter/PageInterpreter.py b/pdfmajor/interpreter/PageInterpreter.py
index 361a770..e9e6a50 100644
--- a/pdfmajor/interpreter/PageInterpreter.py
+++ b/pdfmajor/interpreter/PageInterpreter.py
@@ -8,6 +8,9 @@ class PageInterpreter:
 
     def __init__(self, page: PDFPage, page_num: int, font_cache: dict = None, ignore_bad_chars = False):
         (x0, y0, x1, y1) = page.mediabox
+        # any two opposite corners may be given
+        (x0, x1) = (min(x0, x1), max(x0, x1))
+        (y0, y1) = (min(y0, y1), max(y0, y1))
         if page.rotate == 90:
             ctm = [0, -1, 1, 0, -y0, x1]
         elif page.rotate == 180:
@@ -23,6 +26,8 @@ class PageInterpreter:
         self.page_num = page_num
         self.height = y1-y0
         self.width = x1-x0
+        if page.rotate in (90, 270):
+            (self.height, self.width) = (self.width, self.height)
 
         self.ctm = ctm
         self.ignore_bad_chars = ignore_bad_chars
-- 
2.43.0


From 39d8f965d8aacc58b86ca4f8a05dcd6ad3fcfdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 14/88] fix: maxpages counts the pages that are yielded, not
 the ones skipped by pagenos

---
 pdfmajor/parser/PDFPage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index c9844e9..669ff52 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -129,10 +129,12 @@ class PDFPage(object):
         if check_extractable and not doc.is_extractable:
             raise PDFTextExtractionNotAllowed('Text extraction is not allowed: %r' % fp)
         # Process each page contained in the document.
+        npages = 0
         for (pageno, page) in enumerate(cls.create_pages(doc)):
             if pagenos and (pageno not in pagenos):
                 continue
             yield page
-            if maxpages and maxpages <= pageno+1:
+            npages += 1
+            if maxpages and maxpages <= npages:
                 break
         return
-- 
2.43.0


From 567e0971ee5bf52cc3ad82e9c5de22705360835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 15/88] fix: without a page tree each page object is found
 once, not once for each table that lists it

---
 pdfmajor/parser/PDFPage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index 669ff52..56babef 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -107,8 +107,13 @@ class PDFPage(object):
                 pages = True
         if not pages:
             # fallback when /Pages is missing.
+            # several tables may list the same object
+            seen = set()
             for xref in document.xrefs:
                 for objid in xref.get_objids():
+                    if objid in seen:
+                        continue
+                    seen.add(objid)
                     try:
                         obj = document.getobj(objid)
                         if isinstance(obj, dict) and obj.get('Type') is LITERAL_PAGE:
-- 
2.43.0


From 34f4ee73176b2c162051e78a0105e2d018d30ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 16/88] fix: the number of objects in an object stream may be
 an indirect reference

---
 pdfmajor/parser/PDFDocument/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 55fe1f7..61c9a8f 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -144,7 +144,7 @@ class PDFDocument(object):
             if settings.STRICT:
                 raise PDFSyntaxError('Not a stream object: %r' % stream)
         try:
-            n = stream['N']
+            n = int_value(stream['N'])
         except KeyError:
             if settings.STRICT:
                 raise PDFSyntaxError('N is not defined: %r' % stream)
-- 
2.43.0


From 32152d94c8e386660c4c6ba95e79477e9e449bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 17/88] fix: cross-reference tables that refer to each other no
 longer recurse for ever

---
 pdfmajor/parser/PDFDocument/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 61c9a8f..1080ee0 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -300,8 +300,13 @@ class PDFDocument(object):
         return int(prev)
 
     # read xref table
-    def read_xref_from(self, parser, start, xrefs):
+    def read_xref_from(self, parser, start, xrefs, visited=None):
         """Reads XRefs from the given location."""
+        visited = set() if visited is None else visited
+        if start in visited:
+            # damaged file: the XRefs refer to each other
+            return
+        visited.add(start)
         parser.seek(start)
         parser.reset()
         try:
@@ -325,9 +330,9 @@ class PDFDocument(object):
         log.info('trailer: %r', trailer)
         if 'XRefStm' in trailer:
             pos = int_value(trailer['XRefStm'])
-            self.read_xref_from(parser, pos, xrefs)
+            self.read_xref_from(parser, pos, xrefs, visited)
         if 'Prev' in trailer:
             # find previous xref
             pos = int_value(trailer['Prev'])
-            self.read_xref_from(parser, pos, xrefs)
+            self.read_xref_from(parser, pos, xrefs, visited)
         return
-- 
2.43.0


From e23cbe81529c3c10a2638bf48430329aa0c92e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 18/88] fix: looking up a name asks all kids, finds empty
 values, and reports names out of the limits as missing

---
 pdfmajor/parser/PDFDocument/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 1080ee0..9cf6d27 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -255,16 +255,18 @@ class PDFDocument(object):
             if 'Limits' in d:
                 (k1, k2) = list_value(d['Limits'])
                 if key < k1 or k2 < key:
-                    return None
+                    raise KeyError((cat, key))
             if 'Names' in d:
                 objs = list_value(d['Names'])
                 names = dict(choplist(2, objs))
                 return names[key]
             if 'Kids' in d:
                 for c in list_value(d['Kids']):
-                    v = lookup(dict_value(c))
-                    if v:
-                        return v
+                    try:
+                        return lookup(dict_value(c))
+                    except KeyError:
+                        # not below this one
+                        continue
             raise KeyError((cat, key))
         return lookup(d0)
 
-- 
2.43.0


From ac3d1213b4fc445a64dffe6f15f8ed7e50562602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 19/88] fix: circular outlines and name trees no longer recurse
 for ever, nor long outlines too deep

---
 pdfmajor/parser/PDFDocument/__init__.py | 47 ++++++++++++++++---------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 9cf6d27..1db4275 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -19,6 +19,7 @@ from pdfmajor.execptions import (
 from ...utils import settings, choplist, decode_text
 from ..PSStackParser import KWD
 from ..PSStackParser import literal_name
+from ..PDFStream.PDFObjRef import PDFObjRef
 from ..PDFStream import int_value, str_value, dict_value, list_value, decipher_all
 from ..PDFParser import PDFStreamParser, PDFStream
 
@@ -225,21 +226,27 @@ class PDFDocument(object):
         if 'Outlines' not in self.catalog:
             raise PDFNoOutlines
 
+        # damaged files may refer back to entries seen before
+        visited = set()
+
         def search(entry, level):
-            entry = dict_value(entry)
-            if 'Title' in entry:
-                if 'A' in entry or 'Dest' in entry:
-                    title = decode_text(str_value(entry['Title']))
-                    dest = entry.get('Dest')
-                    action = entry.get('A')
-                    se = entry.get('SE')
-                    yield (level, title, dest, action, se)
-            if 'First' in entry and 'Last' in entry:
-                for x in search(entry['First'], level+1):
-                    yield x
-            if 'Next' in entry:
-                for x in search(entry['Next'], level):
-                    yield x
+            while entry is not None:
+                if isinstance(entry, PDFObjRef):
+                    if entry.objid in visited:
+                        return
+                    visited.add(entry.objid)
+                entry = dict_value(entry)
+                if 'Title' in entry:
+                    if 'A' in entry or 'Dest' in entry:
+                        title = decode_text(str_value(entry['Title']))
+                        dest = entry.get('Dest')
+                        action = entry.get('A')
+                        se = entry.get('SE')
+                        yield (level, title, dest, action, se)
+                if 'First' in entry and 'Last' in entry:
+                    for x in search(entry['First'], level+1):
+                        yield x
+                entry = entry.get('Next')
             return
         return search(self.catalog['Outlines'], 0)
 
@@ -249,9 +256,17 @@ class PDFDocument(object):
         except (PDFTypeError, KeyError):
             raise KeyError((cat, key))
         # may raise KeyError
-        d0 = dict_value(names[cat])
+        d0 = names[cat]
+
+        # damaged files may refer back to nodes seen before
+        visited = set()
 
         def lookup(d):
+            if isinstance(d, PDFObjRef):
+                if d.objid in visited:
+                    raise KeyError((cat, key))
+                visited.add(d.objid)
+            d = dict_value(d)
             if 'Limits' in d:
                 (k1, k2) = list_value(d['Limits'])
                 if key < k1 or k2 < key:
@@ -263,7 +278,7 @@ class PDFDocument(object):
             if 'Kids' in d:
                 for c in list_value(d['Kids']):
                     try:
-                        return lookup(dict_value(c))
+                        return lookup(c)
                     except KeyError:
                         # not below this one
                         continue
-- 
2.43.0


From 21fb3c3a249ac5f1057bea09f0f89ebc9e99f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 20/88] fix: references that only lead to each other resolve to
 the default instead of looping for ever

---
 pdfmajor/parser/PDFStream/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index c16ca8f..cbacdc6 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -14,7 +14,12 @@ def resolve1(x, default=None):
     If this is an array or dictionary, it may still contains
     some indirect objects inside.
     """
+    seen = set()
     while isinstance(x, PDFObjRef):
+        if x.objid in seen:
+            # damaged file: references that only lead to each other
+            return default
+        seen.add(x.objid)
         x = x.resolve(default=default)
     return x
 
@@ -25,8 +30,7 @@ def resolve_all(x, default=None):
     Make sure there is no indirect reference within the nested object.
     This procedure might be slow.
     """
-    while isinstance(x, PDFObjRef):
-        x = x.resolve(default=default)
+    x = resolve1(x, default=default)
     if isinstance(x, list):
         x = [resolve_all(v, default=default) for v in x]
     elif isinstance(x, dict):
-- 
2.43.0


From e78f41087ab923ff65251c876c96dfab97ba36aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 21/88] fix: a page tree with a node below itself no longer
 recurses for ever

---
 pdfmajor/parser/PDFPage.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index 56babef..aaeaefb 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -76,13 +76,16 @@ class PDFPage(object):
 
     @classmethod
     def create_pages(cls, document: PDFDocument):
-        def search(obj, parent):
+        def search(obj, parent, above=()):
             if isinstance(obj, int):
                 objid = obj
                 tree = dict_value(document.getobj(objid)).copy()
             else:
                 objid = obj.objid
                 tree = dict_value(obj).copy()
+            if objid in above:
+                # damaged file: a node below itself
+                return
             for (k, v) in parent.items():
                 if k in cls.INHERITABLE_ATTRS and k not in tree:
                     tree[k] = v
@@ -94,7 +97,7 @@ class PDFPage(object):
             if tree_type is LITERAL_PAGES and 'Kids' in tree:
                 log.debug('Pages: Kids=%r', tree['Kids'])
                 for c in list_value(tree['Kids']):
-                    for x in search(c, tree):
+                    for x in search(c, tree, above+(objid,)):
                         yield x
             elif tree_type is LITERAL_PAGE:
                 log.debug('Page: %r', tree)
-- 
2.43.0


From 913162376394d4d19cf9ee8bd452796e6d8617f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 22/88] fix: form XObjects that draw themselves no longer
 recurse for ever

---
 pdfmajor/interpreter/commands/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 9d61de0..dc71bcd 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -18,7 +18,7 @@ from .utils import init_resources
 
 log = get_logger('process_command_stream')
 
-def process_command_stream(streams: List[PDFStream], font_cache: dict = None, state: PDFStateStack = None):
+def process_command_stream(streams: List[PDFStream], font_cache: dict = None, state: PDFStateStack = None, running: tuple = ()):
     if font_cache is None:
         font_cache = {}
     parser = PDFContentParser(streams)
@@ -51,7 +51,11 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
             # history.write('arg', None, obj)
         
         for complete_item in state.complete_layout_items:
-            if isinstance(complete_item, LTXObject):
+            # a form that draws itself, directly or not, is left empty there
+            if isinstance(complete_item, LTXObject) and not any(
+                complete_item.stream is x or (x.objid is not None and complete_item.stream.objid == x.objid)
+                for x in running
+            ):
                 xobj_state = prep_state(
                     state=PDFStateStack(),
                     ctm=complete_item.t_matrix,
@@ -63,7 +67,8 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                 for item in process_command_stream(
                     [complete_item.stream], 
                     font_cache=font_cache, 
-                    state=xobj_state
+                    state=xobj_state,
+                    running=running+(complete_item.stream,)
                 ):
                     complete_item.add(item)
             yield complete_item
-- 
2.43.0


From 47e1710dedf328f864765e08d46d6401405777cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 23/88] fix: an object whose offset points a few tokens too
 early is found instead of failing with IndexError

---
 pdfmajor/parser/PDFDocument/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 1db4275..bd3e00e 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -171,13 +171,12 @@ class PDFDocument(object):
         #to solve https://github.com/pdfminer/pdfminer.six/issues/56
         #assert objid1 == objid, str((objid1, objid))
         if objid1 != objid:
-            x = []
+            x = [objid1, genno, kwd]
             while kwd is not self.KEYWORD_OBJ:
                 (_,kwd) = self._parser.nexttoken()
                 x.append(kwd)
-            if x:
-                objid1 = x[-2]
-                genno = x[-1]
+            objid1 = x[-3]
+            genno = x[-2]
         # #### end hack around malformed pdf files
         if objid1 != objid:
             raise PDFSyntaxError('objid mismatch: %r=%r' % (objid1, objid))
-- 
2.43.0


From 78a08a0c8cd3bfbc7dd5eb52903b7ca2c2442d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 24/88] fix: strings and keys of JSON output are escaped, not
 only their quotes

---
 pdfmajor/converters/writers/json.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/converters/writers/json.py b/pdfmajor/converters/writers/json.py
index 90ff2ff..e89cb89 100644
--- a/pdfmajor/converters/writers/json.py
+++ b/pdfmajor/converters/writers/json.py
@@ -41,17 +41,17 @@ class JSONMakerObject:
     def write_prop(self, key: str, val: str = ""):
         if key not in self.keys:
             self.keys.add(key)
+            name = json_dump(key, ensure_ascii=False)
             if len(self.keys) > 1:
-                self.write(f'"{key}": {val}', prefix=',\n')
+                self.write(f'{name}: {val}', prefix=',\n')
             else:
-                self.write(f'"{key}": {val}', prefix='\n')
+                self.write(f'{name}: {val}', prefix='\n')
  
     def number(self, key: str, val: float or int):
         self.write_prop(key, val)
     
     def string(self, key: str, val: str):
-        val_sant = str(val).replace('"', '\\"')
-        self.write_prop(key, f'"{val_sant}"')
+        self.write_prop(key, json_dump(str(val), ensure_ascii=False))
     
     @contextmanager
     def object(self, key: str):
@@ -109,8 +109,7 @@ class JSONMakerArray:
         self.write_prop(val)
     
     def string(self, val: str):
-        val_sant = str(val).replace('"', '\\"')
-        self.write_prop(f'"{val_sant}"')
+        self.write_prop(json_dump(str(val), ensure_ascii=False))
     
     @contextmanager
     def object(self):
-- 
2.43.0


From 4157e540dbd0ef8589abbc6b274b1585fe33db28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 25/88] fix: XML output stays well-formed whatever the text and
 the font descriptor hold

---
 pdfmajor/converters/xml.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/converters/xml.py b/pdfmajor/converters/xml.py
index 8aaaa26..408013d 100644
--- a/pdfmajor/converters/xml.py
+++ b/pdfmajor/converters/xml.py
@@ -17,6 +17,16 @@ def convert_capcase_to_snakecase(text: str) -> str:
     s1 = FIRST_CAP_RE.sub(r'\1-\2', text)
     return ALL_CAP_RE.sub(r'\1-\2', s1).lower()
 
+INVALID_CHAR_RE = re.compile('[^\t\n\r\u0020-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+def make_valid(text: str) -> str:
+    """Replaces characters that XML documents cannot contain, escaped or not"""
+    return INVALID_CHAR_RE.sub('\ufffd', text)
+
+INVALID_NAME_RE = re.compile('[^A-Za-z0-9_.-]')
+def get_attribute_name(key: str) -> str:
+    name = INVALID_NAME_RE.sub('-', convert_capcase_to_snakecase(key))
+    return name if name[:1].isalpha() else '_' + name
+
 def normalize_color_values(values: list):
     ret = ""
     for i,v in enumerate(values):
@@ -105,7 +115,7 @@ def place_char(xml: XMLMaker, char: LTChar):
         'y0': char.y0,
         'y1': char.y1,
     }, no_additional_char=True):
-        xml.write(saxutils.escape(char.get_text()), lineend='', deep_space="")
+        xml.write(saxutils.escape(make_valid(char.get_text())), lineend='', deep_space="")
 
 def place_char_block(xml: XMLMaker, char_block: LTCharBlock):
     attr = {
@@ -118,7 +128,7 @@ def place_char_block(xml: XMLMaker, char_block: LTCharBlock):
     }
     for key, value in char_block.font.descriptor.items():
         if key != "Type" and "FontFile" not in key:
-            attr[convert_capcase_to_snakecase(key)] = value
+            attr[get_attribute_name(key)] = enc(make_valid(str(value)), None)
     with xml.elm("char-block", attr):
         for char in char_block:
             place_char(xml, char)
-- 
2.43.0


From 3e59dd91ef55702c8053b1f15a04343032b574b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 26/88] fix: text and attribute values of HTML output are
 escaped

---
 pdfmajor/converters/html.py         | 3 ++-
 pdfmajor/converters/writers/html.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 9b8b335..f1392d8 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -4,6 +4,7 @@ from ..interpreter import PDFInterpreter, PageInterpreter, logging
 from ..interpreter import LTImage, LTTextBlock, LTCharBlock, LTChar, LTCurve, LTXObject
 from ..interpreter.commands import LTItem
 from ..interpreter.commands.state import CurvePath, PDFColor
+from ..utils import enc
 
 INF = (1<<31) - 1
 
@@ -81,7 +82,7 @@ def render_page(html: HTMLMaker, ltpage: PageInterpreter):
                 'min-height': str(item.height) + "px",
                 'max-height': str(item.height) + "px",
             }):
-                html.write(item.get_text())
+                html.write(enc(item.get_text(), None))
         elif isinstance(item, LTTextBlock):
             with html.elm('span', {'class': 'text-block'}):
                 for char in item:
diff --git a/pdfmajor/converters/writers/html.py b/pdfmajor/converters/writers/html.py
index 89961e6..76e4d6d 100644
--- a/pdfmajor/converters/writers/html.py
+++ b/pdfmajor/converters/writers/html.py
@@ -3,6 +3,7 @@ from io import TextIOWrapper
 from contextlib import contextmanager
 
 from pdfmajor.execptions import FileAccessException
+from pdfmajor.utils import enc
 
 class HTMLMaker:
     def __init__(self, file_path: str, codec: str = 'utf-8'):
@@ -45,7 +46,7 @@ class HTMLMaker:
                 for name, value in css.items()
             ])
         attrs_str = " ".join([
-            f'{name}="{value}"'
+            f'{name}="{enc(str(value), None)}"'
             for name, value in attrs.items()
         ])
         if not singleton:
-- 
2.43.0


From 37342b05c9f123b538c4b50628e01632b33ca115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 27/88] fix: a path without extent no longer stops the HTML
 conversion with ZeroDivisionError

---
 pdfmajor/converters/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index f1392d8..4a71b82 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -174,7 +174,7 @@ def create_svg_path(item: LTCurve):
             "viewBox": "0 0 %s %s" % ( item.width/item.height, 1 )
         })
     else:
-        dx = 1.0/(item.x1-item.x0)
+        dx = 1.0/max([(item.x1-item.x0),0.01])
         dy = 1.0
         svg_attr.update({
             "viewBox": "0 0 1 1"
-- 
2.43.0


From 94d66fca3e2be9a24a1db5b5442f71976980eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 28/88] fix: HTML output draws the curves of the operators v
 and y

---
 pdfmajor/converters/html.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 4a71b82..ca3671c 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -203,6 +203,7 @@ def create_svg_path(item: LTCurve):
     def pY(val: float) -> float:
         return ( item.height- (val-item.y0) )*dy
 
+    current = start = ()
     for p in item.paths:
         if p.method == CurvePath.METHOD.MOVE_TO:
             path += f'M{" ".join( f"{pX(p.x)} {pY(p.y)}" for p in p.points )} '
@@ -212,6 +213,17 @@ def create_svg_path(item: LTCurve):
             path += 'Z'
         elif p.method == CurvePath.METHOD.CURVE_BOTH_TO:
             path += f'C{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in p.points )} '
+        elif p.method == CurvePath.METHOD.CURVE_NEXT_TO:
+            # the first control point is the current point
+            points = current + p.points
+            path += f'C{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in points )} '
+        elif p.method == CurvePath.METHOD.CURVE_FIRST_TO:
+            # the second control point is the end point
+            points = p.points + p.points[-1:]
+            path += f'C{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in points )} '
+        if p.method == CurvePath.METHOD.MOVE_TO:
+            start = p.points
+        current = start if p.method == CurvePath.METHOD.CLOSE_PATH else p.points[-1:]
     
     return path, svg_attr
 
-- 
2.43.0


From 51802643295e3f0856cb4eedd9ab1610b1520294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 29/88] fix: strings in YAML output are quoted

---
 pdfmajor/converters/yaml.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index 9697958..0fa8959 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -1,3 +1,6 @@
+import re
+
+from json import dumps as json_dump
 from typing import List
 
 from .writers.yaml import YAMLMaker, YAMLMakerObject, YAMLMakerArray
@@ -9,6 +12,17 @@ from ..interpreter.commands.state import CurvePath, PDFColor
 from ..parser.PSStackParser import PSLiteral
 from ..utils import enc
 
+SPECIAL_CHAR_RE = re.compile('[\x7f-\x9f\u2028\u2029\ud800-\udfff\ufeff\ufffe\uffff]')
+PLAIN_KEY_RE = re.compile('[A-Za-z][A-Za-z0-9_]*$')
+def quote(text: str) -> str:
+    """Anything but a number is double-quoted: a plain scalar may mean something else or end early"""
+    if isinstance(text, (int, float)):
+        return text
+    return SPECIAL_CHAR_RE.sub(
+        lambda m: '\\u%04x' % ord(m.group()), 
+        json_dump(str(text), ensure_ascii=False)
+    )
+
 def normalize_color_values(values: list):
     ret = []
     for v in values:
@@ -73,7 +87,7 @@ def render(yaml: YAMLMakerObject, item: LTItem):
         # if yaml.imagewriter is not None:
         #     name = yaml.imagewriter.export_image(item)
         yaml.write("type", 'img')
-        yaml.write("src", enc(item.name, None))
+        yaml.write("src", quote(item.name))
         yaml.write("x0", item.x0)
         yaml.write("x1", item.x1)
         yaml.write("y0", item.y0)
@@ -100,18 +114,18 @@ def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
     yaml.write("y1", char_block.y1)
     if char_block.color.color_space is not None:
         yaml.place_object("color", {
-            "type": enc(char_block.color.color_space.name).decode(),
-            "value": normalize_color_values(char_block.color.values)
+            "type": quote(enc(char_block.color.color_space.name).decode()),
+            "value": json_dump(normalize_color_values(char_block.color.values))
         })
     for key, value in char_block.font.descriptor.items():
         if key != "Type" and "FontFile" not in key:
-            yaml.write(key, value)
-    yaml.write("text", 
+            yaml.write(key if PLAIN_KEY_RE.match(key) else quote(key), quote(value))
+    yaml.write("text", quote(
         "".join([
             char.get_text()
             for char in char_block
         ])
-    )
+    ))
 
 def place_curve(yaml: YAMLMakerObject, item: LTCurve):                  
     if isinstance(item, LTRect):
@@ -136,11 +150,11 @@ def place_curve(yaml: YAMLMakerObject, item: LTCurve):
     yaml.write("y1", item.y1)
     if item.fill.color_space is not None:
         yaml.place_object("fill", {
-            "type": enc(item.fill.color_space.name).decode(),
-            "value": normalize_color_values(item.fill.values)
+            "type": quote(enc(item.fill.color_space.name).decode()),
+            "value": json_dump(normalize_color_values(item.fill.values))
         })
     if item.stroke.color_space is not None:
         yaml.place_object("stroke", {
-            "type": enc(item.stroke.color_space.name).decode(),
-            "value": normalize_color_values(item.stroke.values)
+            "type": quote(enc(item.stroke.color_space.name).decode()),
+            "value": json_dump(normalize_color_values(item.stroke.values))
         })
\ No newline at end of file
-- 
2.43.0


From 698a69021c11db1a0e012bc9bf2856d7f3cf8964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 30/88] fix: the command line tool passes on output type,
 output file, image folder and debug option

---
 tools/pdfconvert.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/pdfconvert.py b/tools/pdfconvert.py
index bf8706f..0fd73ca 100755
--- a/tools/pdfconvert.py
+++ b/tools/pdfconvert.py
@@ -36,8 +36,13 @@ def main(args=None):
         'password': parsed_args.password, 
         'codec': parsed_args.codec, 
         'caching': not parsed_args.disable_caching,
+        'image_folder_path': parsed_args.output_dir,
+        'out_type': parsed_args.output_type,
     }
 
+    if parsed_args.debug:
+        func_args['debug_level'] = logging.DEBUG
+
     if parsed_args.pagenos:
         func_args['pagenos'] = set([int(x)-1 for x in parsed_args.pagenos.split(",")])
 
@@ -51,7 +56,7 @@ def main(args=None):
 
     if len(parsed_args.files) == 1:
         if parsed_args.output_file != "-":
-            func_args['output_file'] = open(parsed_args.output_file, "wb")
+            func_args['output_file'] = parsed_args.output_file
         convert_file(
             parsed_args.files[0],
             **func_args
-- 
2.43.0


From 7aa57268f977342b87e29f34ea2ceed9e577b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 31/88] fix: convert_to_json without a password uses none
 instead of a type object

---
 pdfmajor/converters/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index 2e3197d..47eaf17 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -25,7 +25,7 @@ def convert_to_json(
     dont_export_images: bool = False,
     codec: str = 'utf-8',
     maxpages: int = 0, 
-    password: str = Optional[None], 
+    password: Optional[str] = None, 
     caching: bool = True, 
     check_extractable: bool = True,
     ignore_bad_chars: bool = False,
-- 
2.43.0


From 004c09232201ddc063392eb98d4414d4e6e52f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 32/88] fix: no password means the empty one, also where None
 says so

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 9a5a0c8..cb5a701 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -20,7 +20,7 @@ class PDFStandardSecurityHandler(object):
     def __init__(self, docid, param, password=''):
         self.docid = docid
         self.param = param
-        self.password = password
+        self.password = '' if password is None else password
         self.encrypt_metadata = False
         self.init()
         return
-- 
2.43.0


From b67b47bac343d82398446902affcd3c080baf657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 33/88] fix: strings in the dictionary of an encrypted stream
 are decrypted

---
 pdfmajor/parser/PDFDocument/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index bd3e00e..e1e430f 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -208,6 +208,9 @@ class PDFDocument(object):
                         obj = self._getobj_parse(index, objid)
                         if self.decipher:
                             obj = decipher_all(self.decipher, objid, genno, obj)
+                            if isinstance(obj, PDFStream):
+                                # its data is deciphered when it is decoded
+                                obj.attrs = decipher_all(self.decipher, objid, genno, obj.attrs)
 
                     if isinstance(obj, PDFStream):
                         obj.set_objid(objid, genno)
-- 
2.43.0


From 1c317352fc8427f45ddf62da4a86b8fe18118ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 34/88] fix: encryption: permissions written as an unsigned
 number are read

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index cb5a701..86d6e26 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -76,7 +76,7 @@ class PDFStandardSecurityHandler(object):
         password = (password + self.PASSWORD_PADDING)[:32]  # 1
         hash = md5.md5(password)  # 2
         hash.update(self.o)  # 3
-        hash.update(struct.pack('<l', self.p))  # 4
+        hash.update(struct.pack('<L', self.p & 0xffffffff))  # 4
         hash.update(self.docid[0])  # 5
         if self.r >= 4:
             if not self.encrypt_metadata:
-- 
2.43.0


From e23ab429d90b493a46ea4c1681195ca0b04f0ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 35/88] fix: encryption: a password that no revision 2-4
 document can have is an incorrect one

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 86d6e26..c8c1fd5 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -90,7 +90,11 @@ class PDFStandardSecurityHandler(object):
         return result[:n]
 
     def authenticate(self, password):
-        password = password.encode("latin1")
+        try:
+            password = password.encode("latin1")
+        except UnicodeEncodeError:
+            # no password of these revisions has such characters
+            return None
         key = self.authenticate_user_password(password)
         if key is None:
             key = self.authenticate_owner_password(password)
-- 
2.43.0


From 742a156305081a8b67467c4e2564a7ed56fab9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 36/88] fix: encryption: the padding of AES data is taken off,
 and empty data stays empty

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index c8c1fd5..39fbc33 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -188,11 +188,19 @@ class PDFStandardSecurityHandlerV4(PDFStandardSecurityHandler):
     def decrypt_identity(self, objid, genno, data):
         return data
 
+    def decrypt_cbc(self, key, data):
+        # the initialisation vector comes first
+        data = AES.new(key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:]) if data else b''
+        # and the last block is filled up with the number of bytes missing in it
+        if data and 1 <= data[-1] <= 16:
+            data = data[:-data[-1]]
+        return data
+
     def decrypt_aes128(self, objid, genno, data):
         key = self.key + struct.pack('<L', objid)[:3] + struct.pack('<L', genno)[:2] + b'sAlT'
         hash = md5.md5(key)
         key = hash.digest()[:min(len(key), 16)]
-        return AES.new(key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:])
+        return self.decrypt_cbc(key, data)
 
 
 class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
@@ -237,4 +245,4 @@ class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
         return None
 
     def decrypt_aes256(self, objid, genno, data):
-        return AES.new(self.key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:])
+        return self.decrypt_cbc(self.key, data)
-- 
2.43.0


From 4b831564e66c5a820d1bd926448d080727d942c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 37/88] fix: encryption: crypt filters default to Identity and
 may be given by reference

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 39fbc33..d01815f 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -5,10 +5,12 @@ from Crypto.Hash import SHA256
 
 from pdfmajor.execptions import PDFEncryptionError, PDFPasswordIncorrect
 
-from ..PDFStream import int_value, str_value, dict_value
-from ..PSStackParser import literal_name
+from ..PDFStream import int_value, str_value, dict_value, resolve1
+from ..PSStackParser import LIT, literal_name
 from ...utils import int2byte, struct
 
+LITERAL_IDENTITY = LIT('Identity')
+
 ##  PDFSecurityHandler
 ##
 class PDFStandardSecurityHandler(object):
@@ -151,15 +153,15 @@ class PDFStandardSecurityHandlerV4(PDFStandardSecurityHandler):
     def init_params(self):
         super(PDFStandardSecurityHandlerV4, self).init_params()
         self.length = 128
-        self.cf = dict_value(self.param.get('CF'))
-        self.stmf = literal_name(self.param['StmF'])
-        self.strf = literal_name(self.param['StrF'])
+        self.cf = dict_value(self.param.get('CF', {}))
+        self.stmf = literal_name(resolve1(self.param.get('StmF', LITERAL_IDENTITY)))
+        self.strf = literal_name(resolve1(self.param.get('StrF', LITERAL_IDENTITY)))
         self.encrypt_metadata = bool(self.param.get('EncryptMetadata', True))
         if self.stmf != self.strf:
             raise PDFEncryptionError('Unsupported crypt filter: param=%r' % self.param)
         self.cfm = {}
         for k, v in self.cf.items():
-            f = self.get_cfm(literal_name(v['CFM']))
+            f = self.get_cfm(literal_name(resolve1(dict_value(v)['CFM'])))
             if f is None:
                 raise PDFEncryptionError('Unknown crypt filter method: param=%r' % self.param)
             self.cfm[k] = f
-- 
2.43.0


From 04a5b38344c8594f7ef7c2ac83cc1d4dcee56642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 38/88] fix: encryption: only the first 48 bytes of U and O
 count for AES-256

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index d01815f..c004b3d 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -216,10 +216,10 @@ class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
         self.ue = str_value(self.param['UE'])
         self.o_hash = self.o[:32]
         self.o_validation_salt = self.o[32:40]
-        self.o_key_salt = self.o[40:]
+        self.o_key_salt = self.o[40:48]
         self.u_hash = self.u[:32]
         self.u_validation_salt = self.u[32:40]
-        self.u_key_salt = self.u[40:]
+        self.u_key_salt = self.u[40:48]
         return
 
     def get_cfm(self, name):
@@ -232,11 +232,11 @@ class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
         password = password.encode('utf-8')[:127]
         hash = SHA256.new(password)
         hash.update(self.o_validation_salt)
-        hash.update(self.u)
+        hash.update(self.u[:48])
         if hash.digest() == self.o_hash:
             hash = SHA256.new(password)
             hash.update(self.o_key_salt)
-            hash.update(self.u)
+            hash.update(self.u[:48])
             return AES.new(hash.digest(), mode=AES.MODE_CBC, IV=b'\x00' * 16).decrypt(self.oe)
         hash = SHA256.new(password)
         hash.update(self.u_validation_salt)
-- 
2.43.0


From 1115bcfa107bc9be46cf84baa757ca667d8fd86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 39/88] fix: tokens: the end of the data or of a content stream
 ends the last token

---
 pdfmajor/parser/PDFContentParser.py           | 12 ++++++------
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 11 ++++++++++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 98ef0da..149c81a 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -39,13 +39,13 @@ class PDFContentParser(PSStackParser):
     def fillbuf(self):
         if self.charpos < len(self.buf):
             return
-        while 1:
-            self.fillfp()
-            self.bufpos = self.fp.tell()
-            self.buf = self.fp.read(self.BUFSIZ)
-            if self.buf:
-                break
+        self.fillfp()
+        self.bufpos = self.fp.tell()
+        self.buf = self.fp.read(self.BUFSIZ)
+        if not self.buf:
+            # no token goes on in the next stream
             self.fp = None
+            self.buf = b'\n'
         self.charpos = 0
         return
 
diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 707e575..922af7f 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -339,7 +339,16 @@ class PSBaseParser(object):
 
     def nexttoken(self):
         while not self._tokens:
-            self.fillbuf()
+            try:
+                self.fillbuf()
+            except PSEOF:
+                # the end of the data ends the last token
+                i = 0
+                while i < 1:
+                    i = self._current_parse_func(b'\n', i)
+                if not self._tokens:
+                    raise
+                break
             self.charpos = self._current_parse_func(self.buf, self.charpos)
         token = self._tokens.pop(0)
         log.debug('nexttoken: %r', token)
-- 
2.43.0


From 28470be7192ebbbfcee67e22dc1335d0269e2589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 40/88] fix: tokens: octal escapes above \377 overflow instead
 of failing

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 922af7f..9247efb 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -299,7 +299,7 @@ class PSBaseParser(object):
             self.oct += c
             return i+1
         if self.oct:
-            self._curtoken += int2byte(int(self.oct, 8))
+            self._curtoken += int2byte(int(self.oct, 8) & 0xff)
             self._current_parse_func = self._parse_string
             return i
         if c in ESC_STRING:
-- 
2.43.0


From 978b624ec0a6a5cbc6bbf09773bff6a9b50582bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 41/88] fix: tokens: a backslash hides a CR LF line end as a
 whole

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 9247efb..d3e53f8 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -304,9 +304,19 @@ class PSBaseParser(object):
             return i
         if c in ESC_STRING:
             self._curtoken += int2byte(ESC_STRING[c])
+        elif c == b'\r':
+            # the line end may be a pair
+            self._current_parse_func = self._parse_string_2
+            return i+1
         self._current_parse_func = self._parse_string
         return i+1
 
+    def _parse_string_2(self, s, i):
+        self._current_parse_func = self._parse_string
+        if s[i:i+1] == b'\n':
+            return i+1
+        return i
+
     def _parse_wopen(self, s, i):
         c = s[i:i+1]
         if c == b'<':
-- 
2.43.0


From 19e83aad81057016d0f9600d826121c1311c213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 42/88] fix: tokens: a backslash before another character means
 that character

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index d3e53f8..118ad27 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -308,6 +308,9 @@ class PSBaseParser(object):
             # the line end may be a pair
             self._current_parse_func = self._parse_string_2
             return i+1
+        elif c != b'\n':
+            # the backslash does not mean anything
+            self._curtoken += c
         self._current_parse_func = self._parse_string
         return i+1
 
-- 
2.43.0


From b6e3f57f68f1267debb1cbd1784869fb67e4cd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 43/88] fix: tokens: the null character is white space

---
 pdfmajor/parser/PSStackParser/constants.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PSStackParser/constants.py b/pdfmajor/parser/PSStackParser/constants.py
index 970a9c4..93b900e 100644
--- a/pdfmajor/parser/PSStackParser/constants.py
+++ b/pdfmajor/parser/PSStackParser/constants.py
@@ -15,14 +15,14 @@ KEYWORD_DICT_END = KWD(b'>>')
 ##  PSBaseParser
 ##
 EOL = re.compile(br'[\r\n]')
-SPC = re.compile(br'\s')
-NONSPC = re.compile(br'\S')
+SPC = re.compile(br'[\s\0]')
+NONSPC = re.compile(br'[^\s\0]')
 HEX = re.compile(br'[0-9a-fA-F]')
-END_LITERAL = re.compile(br'[#/%\[\]()<>{}\s]')
-END_HEX_STRING = re.compile(br'[^\s0-9a-fA-F]')
+END_LITERAL = re.compile(br'[#/%\[\]()<>{}\s\0]')
+END_HEX_STRING = re.compile(br'[^\s\x000-9a-fA-F]')
 HEX_PAIR = re.compile(br'[0-9a-fA-F]{2}|.')
 END_NUMBER = re.compile(br'[^0-9]')
-END_KEYWORD = re.compile(br'[#/%\[\]()<>{}\s]')
+END_KEYWORD = re.compile(br'[#/%\[\]()<>{}\s\0]')
 END_STRING = re.compile(br'[()\134]')
 OCT_STRING = re.compile(br'[0-7]')
 ESC_STRING = {b'b': 8, b't': 9, b'n': 10, b'f': 12, b'r': 13, b'(': 40, b')': 41, b'\\': 92}
-- 
2.43.0


From 9a0223b92231ff79c83166eb09dc3887b2f49ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 44/88] fix: lines: the last line does not need a line end

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 118ad27..65ab053 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -81,7 +81,13 @@ class PSBaseParser(object):
         linepos = self.bufpos + self.charpos
         eol = False
         while 1:
-            self.fillbuf()
+            try:
+                self.fillbuf()
+            except PSEOF:
+                # the end of the data ends the last line
+                if not linebuf:
+                    raise
+                break
             if eol:
                 c = self.buf[self.charpos:self.charpos+1]
                 # handle b'\r\n'
-- 
2.43.0


From d310c259a061a6f42d5b8c2f1feb37899ea30e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 45/88] fix: xref streams: entries of the second and later
 ranges follow those of the first

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 4b2b3d1..e6357bc 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -201,13 +201,15 @@ class PDFXRefStream(PDFBaseXRef):
         return self.trailer
 
     def get_objids(self):
+        index = 0
         for (start, nobjs) in self.ranges:
             for i in range(nobjs):
-                offset = self.entlen * i
+                offset = self.entlen * (index + i)
                 ent = self.data[offset:offset+self.entlen]
                 f1 = nunpack(ent[:self.fl1], 1)
                 if f1 == 1 or f1 == 2:
                     yield start+i
+            index += nobjs
         return
 
     def get_pos(self, objid):
-- 
2.43.0


From ebf2d801dd02d52318ba9ed6a8da1ce0e3709114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 46/88] fix: xref streams: fields may have any width

---
 pdfmajor/utils/generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index 1dedd22..93d2361 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -126,7 +126,7 @@ def choplist(n, seq):
 
 # nunpack
 def nunpack(s, default=0):
-    """Unpacks 1 to 4 or 8 byte integers (big endian)."""
+    """Unpacks integers (big endian)."""
     l = len(s)
     if not l:
         return default
@@ -141,7 +141,7 @@ def nunpack(s, default=0):
     elif l == 8:
         return struct.unpack('>Q', s)[0]
     else:
-        raise TypeError('invalid length: %d' % l)
+        return int.from_bytes(s, 'big')
 
 ##  Plane
 ##
-- 
2.43.0


From b653f5d6801d95da41ca7afa19f5c4c98dfb993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 47/88] fix: xref: a startxref without a number counts as no
 valid xref

---
 pdfmajor/parser/PDFDocument/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index e1e430f..e2e21e8 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -316,7 +316,10 @@ class PDFDocument(object):
         else:
             raise PDFNoValidXRef('Unexpected EOF')
         log.info('xref found: pos=%r', prev)
-        return int(prev)
+        try:
+            return int(prev)
+        except (TypeError, ValueError):
+            raise PDFNoValidXRef('Invalid startxref: %r' % prev)
 
     # read xref table
     def read_xref_from(self, parser, start, xrefs, visited=None):
-- 
2.43.0


From a62459beb6822218e3a856de32e4e984d64f3a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 48/88] fix: xref: entries that are no numbers count as no
 valid xref

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index e6357bc..1ec6b51 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -76,7 +76,10 @@ class PDFXRef(PDFBaseXRef):
                 (pos, genno, use) = f
                 if use != b'n':
                     continue
-                self.offsets[objid] = (None, int(pos), int(genno))
+                try:
+                    self.offsets[objid] = (None, int(pos), int(genno))
+                except ValueError:
+                    raise PDFNoValidXRef('Invalid XRef format: %r, line=%r' % (parser, line))
         log.info('xref objects: %r', self.offsets)
         self.load_trailer(parser)
         return
-- 
2.43.0


From 2997047120807f11be2ca9e27515ee6ba55d7037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 49/88] fix: object streams: null is the null object, not a
 keyword

---
 pdfmajor/parser/PDFParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index daf443d..ed8322b 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -163,6 +163,10 @@ class PDFStreamParser(PDFParser):
             except PSSyntaxError:
                 pass
             return
+        elif token is self.KEYWORD_NULL:
+            # null object
+            self.push((pos, None))
+            return
         elif token in (self.KEYWORD_OBJ, self.KEYWORD_ENDOBJ):
             if settings.STRICT:
                 # See PDF Spec 3.4.6: Only the object values are stored in the
-- 
2.43.0


From 0bbc481ea50d741a84766299e2257e6f0ae3cc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:15 +0000
Subject: [PATCH 50/88] fix: xref: a number at startxref that begins no xref
 stream counts as no valid xref

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 1ec6b51..906e84d 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -180,11 +180,14 @@ class PDFXRefStream(PDFBaseXRef):
         return '<PDFXRefStream: ranges=%r>' % (self.ranges)
 
     def load(self, parser):
-        (_, objid) = parser.nexttoken()  # ignored
-        (_, genno) = parser.nexttoken()  # ignored
-        (_, kwd) = parser.nexttoken()
-        (_, stream) = parser.nextobject()
-        if not isinstance(stream, PDFStream) or stream['Type'] is not LITERAL_XREF:
+        try:
+            (_, objid) = parser.nexttoken()  # ignored
+            (_, genno) = parser.nexttoken()  # ignored
+            (_, kwd) = parser.nexttoken()
+            (_, stream) = parser.nextobject()
+        except PSEOF:
+            raise PDFNoValidXRef('Unexpected EOF - file corrupted?')
+        if not isinstance(stream, PDFStream) or stream.get('Type') is not LITERAL_XREF:
             raise PDFNoValidXRef('Invalid PDF stream spec.')
         size = stream['Size']
         index_array = stream.get('Index', (0, size))
-- 
2.43.0


From ebfe5d7a0276f7d92eecd5d67f115d780ba53e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:00 +0000
Subject: [PATCH 51/88] fix: streams: filters and parameters given as
 references, or fewer parameters than filters

---
 pdfmajor/parser/PDFStream/__init__.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index a86ede8..1d9e524 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -60,8 +60,8 @@ class PDFStream(PDFObject):
         return default
 
     def get_filters(self):
-        filters = self.get_any(('F', 'Filter'))
-        params = self.get_any(('DP', 'DecodeParms', 'FDecodeParms'), {})
+        filters = resolve1(self.get_any(('F', 'Filter')))
+        params = resolve1(self.get_any(('DP', 'DecodeParms', 'FDecodeParms'), {}))
         if not filters:
             return []
         if not isinstance(filters, list):
@@ -71,12 +71,10 @@ class PDFStream(PDFObject):
             params = [params] * len(filters)
         if settings.STRICT and len(params) != len(filters):
             raise PDFException("Parameters len filter mismatch")
-        # resolve filter if possible
-        _filters = []
-        for fltr in filters:
-            if hasattr(fltr, 'resolve'):
-                fltr = fltr.resolve()[0]
-            _filters.append(fltr)
+        # filters without parameters have the default ones
+        params = params + [None] * (len(filters) - len(params))
+        _filters = [resolve1(fltr) for fltr in filters]
+        params = [dict((k, resolve1(v)) for (k, v) in (resolve1(x) or {}).items()) for x in params]
         return list(zip(_filters, params)) #solves https://github.com/pdfminer/pdfminer.six/issues/15
 
     def decode(self):
-- 
2.43.0


From 509cb9c4dfee46c970132787a8f011d02a00a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:00 +0000
Subject: [PATCH 52/88] fix: hexadecimal data: white space between the digits
 of a pair, and data behind the end marker

---
 pdfmajor/utils/ascii85.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/utils/ascii85.py b/pdfmajor/utils/ascii85.py
index ec05158..925d72c 100644
--- a/pdfmajor/utils/ascii85.py
+++ b/pdfmajor/utils/ascii85.py
@@ -63,6 +63,9 @@ def asciihexdecode(data):
         i=int(x,16)
         return int2byte(i)
 
+    # white space may be anywhere, and nothing follows the end marker
+    data=b''.join(data.split(b'>')[0].replace(b'\0', b' ').split())
+
     out=b''
     for x in hex_re.findall(data):
         out+=decode(x)
-- 
2.43.0


From 64d8729ae5a469d38d3cceb270ec8bc53f7da805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:00 +0000
Subject: [PATCH 53/88] fix: run lengths: data that end early failed with
 IndexError

---
 pdfmajor/parser/PDFStream/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index cbacdc6..f7bba4a 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -132,12 +132,10 @@ def rldecode(data):
         if length == 128:
             break
         if length >= 0 and length < 128:
-            for j in range(i+1,(i+1)+(length+1)):
-                decoded+=int2byte(data[j])
-            
+            decoded+=data[i+1:(i+1)+(length+1)]
             i = (i+1) + (length+1)
         if length > 128:
-            run = int2byte(data[i+1])*(257-length)
+            run = data[i+1:i+2]*(257-length)
             decoded+=run
             i = (i+1) + 1
     return decoded
-- 
2.43.0


From 5c87ca9140a5a2c90e261037ac6f092085a38d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:33 +0000
Subject: [PATCH 54/88] fix: PNG predictors: rows of several colours, Average
 and Paeth

---
 pdfmajor/utils/generic.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index 93d2361..0eaa097 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -31,9 +31,10 @@ def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
         raise ValueError("Unsupported `bitspercomponent': %d" %
                          bitspercomponent)
     nbytes = colors * columns * bitspercomponent // 8
+    bpp = colors * bitspercomponent // 8
     i = 0
     buf = b''
-    line0 = b'\x00' * columns
+    line0 = b'\x00' * nbytes
     for i in range(0, len(data), nbytes+1):
         ft = data[i]
         i += 1
@@ -43,22 +44,32 @@ def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
             # PNG none
             line2 += line1
         elif ft == 1:
-            # PNG sub (UNTESTED)
-            c = 0
-            for b in line1:
-                c = (c+b) & 255
-                line2 += int2byte(c)
+            # PNG sub: the byte of the pixel to the left
+            for (j, b) in enumerate(line1):
+                c = line2[j-bpp] if bpp <= j else 0
+                line2 += int2byte((c+b) & 255)
         elif ft == 2:
             # PNG up
             for (a, b) in zip(line0, line1):
                 c = (a+b) & 255
                 line2 += int2byte(c)
         elif ft == 3:
-            # PNG average (UNTESTED)
-            c = 0
-            for (a, b) in zip(line0, line1):
-                c = ((c+a+b)//2) & 255
-                line2 += int2byte(c)
+            # PNG average of the bytes to the left and above
+            for (j, (a, b)) in enumerate(zip(line0, line1)):
+                c = line2[j-bpp] if bpp <= j else 0
+                line2 += int2byte((b+(c+a)//2) & 255)
+        elif ft == 4:
+            # PNG Paeth: of left, above and above left, the one nearest to their gradient
+            for (j, (a, b)) in enumerate(zip(line0, line1)):
+                (c, d) = (line2[j-bpp], line0[j-bpp]) if bpp <= j else (0, 0)
+                (pc, pa, pd) = (abs(a-d), abs(c-d), abs(a+c-2*d))
+                if pc <= pa and pc <= pd:
+                    e = c
+                elif pa <= pd:
+                    e = a
+                else:
+                    e = d
+                line2 += int2byte((b+e) & 255)
         else:
             # unsupported
             raise ValueError("Unsupported predictor value: %d" % ft)
-- 
2.43.0


From 1ff1ddeed633f96249e8f2f25b11406bf4b5c0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:18 +0000
Subject: [PATCH 55/88] fix: content without any stream is empty instead of
 failing

---
 pdfmajor/parser/PDFContentParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 149c81a..000625c 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -16,7 +16,8 @@ from .PDFStream import PDFStream
 class PDFContentParser(PSStackParser):
 
     def __init__(self, streams: List[PDFStream]):
-        self.streams = streams
+        # no streams at all are as good as an empty one
+        self.streams = streams or [PDFStream({}, b'')]
         self.istream = 0
         PSStackParser.__init__(self, None)
         return
-- 
2.43.0


From 2cb7c654c91dd8123c28b8b0935ef936ab40d90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:18 +0000
Subject: [PATCH 56/88] fix: inline data following the last token of a stream
 begin with the next stream

---
 pdfmajor/parser/PDFContentParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 000625c..c171baa 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -51,7 +51,8 @@ class PDFContentParser(PSStackParser):
         return
 
     def get_inline_data(self, pos, target=b'EI'):
-        self.seek(pos)
+        # behind the end of a stream the data begin with the next one
+        self.seek(pos if self.fp else 0)
         i = 0
         data = b''
         while i <= len(target):
-- 
2.43.0


From 5709d022760a7c547cbbd3217485d895d89df7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:18 +0000
Subject: [PATCH 57/88] fix: inline data whose end is preceded by the beginning
 of an end

---
 pdfmajor/parser/PDFContentParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index c171baa..879a686 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -67,7 +67,8 @@ class PDFContentParser(PSStackParser):
                 elif i < len(target) and c == (int2byte(target[i])):
                     i += 1
                 else:
-                    i = 0
+                    # may be where the end begins
+                    i = int(c == int2byte(target[0]))
             else:
                 try:
                     j = self.buf.index(target[0], self.charpos)
-- 
2.43.0


From 31c8e9dae050bd550e5624c85bf7a0955ef0cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:18 +0000
Subject: [PATCH 58/88] fix: inline data lose one line end, not two

---
 pdfmajor/parser/PDFContentParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 879a686..4dd0fbd 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -79,7 +79,7 @@ class PDFContentParser(PSStackParser):
                     data += self.buf[self.charpos:]
                     self.charpos = len(self.buf)
         data = data[:-(len(target)+1)]  # strip the last part
-        data = re.sub(br'(\x0d\x0a|[\x0d\x0a])$', b'', data)
+        data = re.sub(br'(\x0d\x0a|[\x0d\x0a])\Z', b'', data)
         return (pos, data)
 
     def flush(self):
-- 
2.43.0


From 3c8cfe76fb3aefaf29af385472b52c8a90586c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:58 +0000
Subject: [PATCH 59/88] fix: null is an operand in content, not an operator

---
 pdfmajor/parser/PDFContentParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 4dd0fbd..28a8a8a 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -89,6 +89,7 @@ class PDFContentParser(PSStackParser):
     KEYWORD_BI = KWD(b'BI')
     KEYWORD_ID = KWD(b'ID')
     KEYWORD_EI = KWD(b'EI')
+    KEYWORD_NULL = KWD(b'null')
 
     def do_keyword(self, pos, token):
         if token is self.KEYWORD_BI:
@@ -107,6 +108,9 @@ class PDFContentParser(PSStackParser):
             except PSTypeError as e:
                 if settings.STRICT:
                     raise e
+        elif token is self.KEYWORD_NULL:
+            # the null object
+            self.push((pos, None))
         else:
             self.push((pos, token))
         return
-- 
2.43.0


From d8ef0fa70a281b5c088f9346f912600021dffb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:39 +0000
Subject: [PATCH 60/88] fix: names of glyphs that are no text or hold huge
 numbers are unknown instead of failing

---
 pdfmajor/utils/encoding/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/utils/encoding/__init__.py b/pdfmajor/utils/encoding/__init__.py
index 5c339bb..85d287c 100644
--- a/pdfmajor/utils/encoding/__init__.py
+++ b/pdfmajor/utils/encoding/__init__.py
@@ -10,8 +10,12 @@ def name2unicode(name):
     """Converts Adobe glyph names to Unicode numbers."""
     if name in glyphname2unicode:
         return glyphname2unicode[name]
-    m = STRIP_NAME.search(name)
+    m = STRIP_NAME.search(name) if isinstance(name, str) else None
     if not m:
         raise KeyError(name)
-    return chr(int(m.group(0)))
+    try:
+        return chr(int(m.group(0)))
+    except (ValueError, OverflowError):
+        # not the number of any character
+        raise KeyError(name)
 
-- 
2.43.0


From 463c6f3b3a3ee86c66d3bc6a269fb53a855a01b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:39 +0000
Subject: [PATCH 61/88] fix: glyph names made of the code in hexadecimal

---
 pdfmajor/utils/encoding/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/utils/encoding/__init__.py b/pdfmajor/utils/encoding/__init__.py
index 85d287c..758a221 100644
--- a/pdfmajor/utils/encoding/__init__.py
+++ b/pdfmajor/utils/encoding/__init__.py
@@ -3,6 +3,7 @@ from .glyphlist import glyphname2unicode
 from .latin_enc import LATIN_ENCODING
 
 STRIP_NAME = re.compile(r'[0-9]+')
+HEX_NAME = re.compile(r'uni((?:[0-9A-F]{4})+)\Z|u([0-9A-F]{4,6})\Z')
 
 ##  name2unicode
 ##
@@ -10,10 +11,17 @@ def name2unicode(name):
     """Converts Adobe glyph names to Unicode numbers."""
     if name in glyphname2unicode:
         return glyphname2unicode[name]
-    m = STRIP_NAME.search(name) if isinstance(name, str) else None
+    if not isinstance(name, str):
+        raise KeyError(name)
+    m = STRIP_NAME.search(name)
     if not m:
         raise KeyError(name)
     try:
+        h = HEX_NAME.match(name)
+        if h and h.group(2):
+            return chr(int(h.group(2), 16))
+        if h:
+            return bytes.fromhex(h.group(1)).decode('UTF-16BE', 'ignore')
         return chr(int(m.group(0)))
     except (ValueError, OverflowError):
         # not the number of any character
-- 
2.43.0


From 1d41e1c9277f9de12fca46cce655d6c2d13eb358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:39 +0000
Subject: [PATCH 62/88] fix: names of variants of glyphs and of ligatures

---
 pdfmajor/utils/encoding/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/utils/encoding/__init__.py b/pdfmajor/utils/encoding/__init__.py
index 758a221..490cd41 100644
--- a/pdfmajor/utils/encoding/__init__.py
+++ b/pdfmajor/utils/encoding/__init__.py
@@ -13,6 +13,10 @@ def name2unicode(name):
         return glyphname2unicode[name]
     if not isinstance(name, str):
         raise KeyError(name)
+    # variants are named like "a.alt", ligatures like "f_i"
+    parts = name.split('.')[0].split('_')
+    if all(part in glyphname2unicode for part in parts):
+        return ''.join(glyphname2unicode[part] for part in parts)
     m = STRIP_NAME.search(name)
     if not m:
         raise KeyError(name)
-- 
2.43.0


From 6c7c589eaf13072ab2b7c2fcdaed9085922bf99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:39 +0000
Subject: [PATCH 63/88] fix: encodings whose base or differences hold
 references

---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 341add3..a177327 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -114,8 +114,8 @@ class PDFSimpleFont(PDFFont):
         else:
             encoding = LITERAL_STANDARD_ENCODING
         if isinstance(encoding, dict):
-            name = literal_name(encoding.get('BaseEncoding', LITERAL_STANDARD_ENCODING))
-            diff = list_value(encoding.get('Differences', []))
+            name = literal_name(resolve1(encoding.get('BaseEncoding', LITERAL_STANDARD_ENCODING)))
+            diff = [resolve1(x) for x in list_value(encoding.get('Differences', []))]
             self.cid2unicode = EncodingDB.get_encoding(name, diff)
         else:
             self.cid2unicode = EncodingDB.get_encoding(literal_name(encoding))
-- 
2.43.0


From 746ba211b9960164258960b4e45dddf25c3344bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:39 +0000
Subject: [PATCH 64/88] fix: embedded fonts that use the standard encoding

---
 .../interpreter/commands/state/PDFTextState/PDFFont/fonts.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 51b66a2..96f98f6 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -42,7 +42,7 @@ class PDFType1Font(PDFSimpleFont):
             length1 = int_value(self.fontfile['Length1'])
             data = self.fontfile.get_data()[:length1]
             parser = Type1FontHeaderParser(BytesIO(data))
-            self.cid2unicode = parser.get_encoding()
+            self.cid2unicode = parser.get_encoding() or self.cid2unicode
         return
 
     def __repr__(self):
-- 
2.43.0


From 2423105c1672b2a3564d51b35b9b979a5bb4e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:30 +0000
Subject: [PATCH 65/88] fix: text of an odd number of bytes in fonts with two
 byte codes

---
 pdfmajor/parser/cmapdb/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 3ac0678..9c87529 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -120,7 +120,8 @@ class IdentityCMap(CMapBase):
     def decode(self, code):
         n = len(code)//2
         if n:
-            return struct.unpack('>%dH' % n, code)
+            # a byte too much is no code
+            return struct.unpack('>%dH' % n, code[:n*2])
         else:
             return ()
 
-- 
2.43.0


From ecef8547e7c88023a8ffb7691fd893cf38f308f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:30 +0000
Subject: [PATCH 66/88] fix: ToUnicode maps with names, short arrays or what is
 no text

---
 pdfmajor/parser/cmapdb/__init__.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 9c87529..f756f10 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -281,6 +281,14 @@ class CMapParser(PSStackParser):
             pass
         return
 
+    def add_unichr(self, cid, code):
+        try:
+            self.cmap.add_cid2unichr(cid, code)
+        except (KeyError, TypeError, ValueError):
+            # an unknown name, or no text at all
+            pass
+        return
+
     KEYWORD_BEGINCMAP = KWD(b'begincmap')
     KEYWORD_ENDCMAP = KWD(b'endcmap')
     KEYWORD_USECMAP = KWD(b'usecmap')
@@ -381,16 +389,16 @@ class CMapParser(PSStackParser):
                 e1 = nunpack(e)
                 #assert s1 <= e1, str((s1, e1))
                 if isinstance(code, list):
-                    for i in range(e1-s1+1):
-                        self.cmap.add_cid2unichr(s1+i, code[i])
-                else:
+                    for (i, c) in zip(range(e1-s1+1), code):
+                        self.add_unichr(s1+i, c)
+                elif isinstance(code, bytes):
                     var = code[-4:]
                     base = nunpack(var)
                     prefix = code[:-4]
                     vlen = len(var)
                     for i in range(e1-s1+1):
                         x = prefix+struct.pack('>L', base+i)[-vlen:]
-                        self.cmap.add_cid2unichr(s1+i, x)
+                        self.add_unichr(s1+i, x)
             return
 
         if token is self.KEYWORD_BEGINBFCHAR:
@@ -399,8 +407,8 @@ class CMapParser(PSStackParser):
         if token is self.KEYWORD_ENDBFCHAR:
             objs = [obj for (__, obj) in self.popall()]
             for (cid, code) in choplist(2, objs):
-                if isinstance(cid, bytes) and isinstance(code, bytes):
-                    self.cmap.add_cid2unichr(nunpack(cid), code)
+                if isinstance(cid, bytes):
+                    self.add_unichr(nunpack(cid), code)
             return
 
         if token is self.KEYWORD_BEGINNOTDEFRANGE:
-- 
2.43.0


From 1a863500ff45bbed933f9a3c7776e791823dde55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:30 +0000
Subject: [PATCH 67/88] fix: fonts that come with their own CMap

---
 .../state/PDFTextState/PDFFont/fonts.py       | 13 +++++++--
 pdfmajor/parser/cmapdb/__init__.py            | 29 +++++++++----------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 96f98f6..2486982 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -9,7 +9,7 @@ from pdfmajor.parser.PDFStream import dict_value
 from pdfmajor.parser.PDFStream import PDFStream
 from pdfmajor.parser.PDFStream import resolve1
 from pdfmajor.parser.cmapdb import CMap, CMapDB, CMapParser
-from pdfmajor.parser.cmapdb import FileUnicodeMap
+from pdfmajor.parser.cmapdb import FileCMap, FileUnicodeMap
 from pdfmajor.utils import settings, apply_matrix_norm
 
 from .PDFFont import PDFFont, PDFSimpleFont
@@ -93,13 +93,20 @@ class PDFCIDFont(PDFFont):
         self.cidcoding = '%s-%s' % (resolve1(self.cidsysteminfo.get('Registry', b'unknown')).decode("latin1"),
                                     resolve1(self.cidsysteminfo.get('Ordering', b'unknown')).decode("latin1"))
         try:
-            name = literal_name(spec['Encoding'])
+            name = resolve1(spec['Encoding'])
+            if not isinstance(name, PDFStream):
+                name = literal_name(name)
         except KeyError:
             if strict:
                 raise FontError('Encoding is unspecified')
             name = 'unknown'
         try:
-            self.cmap = CMapDB.get_cmap(name)
+            if isinstance(name, PDFStream):
+                # the font comes with its own
+                self.cmap = FileCMap()
+                CMapParser(self.cmap, BytesIO(name.get_data())).run()
+            else:
+                self.cmap = CMapDB.get_cmap(name)
         except CMapNotFound as e:
             if strict:
                 raise FontError(e)
diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index f756f10..78f4466 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -153,18 +153,13 @@ class UnicodeMap(CMapBase):
 class FileCMap(CMap):
 
     def add_code2cid(self, code, cid):
-        assert isinstance(code, str) and isinstance(cid, int), str((type(code), type(cid)))
+        assert isinstance(code, bytes) and isinstance(cid, int), str((type(code), type(cid)))
         d = self.code2cid
         for c in code[:-1]:
-            c = ord(c)
-            if c in d:
-                d = d[c]
-            else:
-                t = {}
-                d[c] = t
-                d = t
-        c = ord(code[-1])
-        d[c] = cid
+            if not isinstance(d.get(c), dict):
+                d[c] = {}
+            d = d[c]
+        d[code[-1]] = cid
         return
 
 
@@ -328,7 +323,9 @@ class CMapParser(PSStackParser):
         if token is self.KEYWORD_USECMAP:
             try:
                 ((_, cmapname),) = self.pop(1)
-                self.cmap.use_cmap(CMapDB.get_cmap(literal_name(cmapname)))
+                cmap = CMapDB.get_cmap(literal_name(cmapname))
+                if isinstance(cmap, CMap):
+                    self.cmap.use_cmap(cmap)
             except PSSyntaxError:
                 pass
             except CMapNotFound:
@@ -348,8 +345,8 @@ class CMapParser(PSStackParser):
         if token is self.KEYWORD_ENDCIDRANGE:
             objs = [obj for (__, obj) in self.popall()]
             for (s, e, cid) in choplist(3, objs):
-                if (not isinstance(s, str) or not isinstance(e, str) or
-                   not isinstance(cid, int) or len(s) != len(e)):
+                if (not isinstance(s, bytes) or not isinstance(e, bytes) or
+                   not isinstance(cid, int) or len(s) != len(e) or not s):
                     continue
                 sprefix = s[:-4]
                 eprefix = e[:-4]
@@ -371,9 +368,9 @@ class CMapParser(PSStackParser):
             return
         if token is self.KEYWORD_ENDCIDCHAR:
             objs = [obj for (__, obj) in self.popall()]
-            for (cid, code) in choplist(2, objs):
-                if isinstance(code, str) and isinstance(cid, str):
-                    self.cmap.add_code2cid(code, nunpack(cid))
+            for (code, cid) in choplist(2, objs):
+                if isinstance(code, bytes) and isinstance(cid, int) and code:
+                    self.cmap.add_code2cid(code, cid)
             return
 
         if token is self.KEYWORD_BEGINBFRANGE:
-- 
2.43.0


From e1f693af53501bbd172039274c3589a5aa31daeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:53 +0000
Subject: [PATCH 68/88] fix: a default width of zero is a width

---
 .../interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index a177327..c9e5782 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -34,7 +34,7 @@ class PDFFont(object):
         self.ascent = num_value(descriptor.get('Ascent', 0))
         self.descent = num_value(descriptor.get('Descent', 0))
         self.italic_angle = num_value(descriptor.get('ItalicAngle', 0))
-        self.default_width = default_width or num_value(descriptor.get('MissingWidth', 0))
+        self.default_width = num_value(descriptor.get('MissingWidth', 0)) if default_width is None else default_width
         self.leading = num_value(descriptor.get('Leading', 0))
         self.bbox = list_value(descriptor.get('FontBBox', (0, 0, 0, 0)))
         self.hscale = self.vscale = .001
-- 
2.43.0


From 920ec3af148ad83f273e33af029230fd4a800a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:53 +0000
Subject: [PATCH 69/88] fix: fonts without widths have the missing width

---
 .../interpreter/commands/state/PDFTextState/PDFFont/fonts.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 2486982..f19b04a 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -33,7 +33,7 @@ class PDFType1Font(PDFSimpleFont):
             descriptor = dict_value(spec.get('FontDescriptor', {}))
             firstchar = int_value(spec.get('FirstChar', 0))
             #lastchar = int_value(spec.get('LastChar', 255))
-            widths = list_value(spec.get('Widths', [0]*256))
+            widths = list_value(spec.get('Widths', []))
             widths = dict((i+firstchar, w) for (i, w) in enumerate(widths))
         PDFSimpleFont.__init__(self, descriptor, widths, spec)
         if 'Encoding' not in spec and 'FontFile' in descriptor:
@@ -62,7 +62,7 @@ class PDFType3Font(PDFSimpleFont):
     def __init__(self, spec):
         firstchar = int_value(spec.get('FirstChar', 0))
         #lastchar = int_value(spec.get('LastChar', 0))
-        widths = list_value(spec.get('Widths', [0]*256))
+        widths = list_value(spec.get('Widths', []))
         widths = dict((i+firstchar, w) for (i, w) in enumerate(widths))
         if 'FontDescriptor' in spec:
             descriptor = dict_value(spec['FontDescriptor'])
-- 
2.43.0


From f47e1a398dbe612799a249ef6f37e83c54934eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:53 +0000
Subject: [PATCH 70/88] fix: widths given as references

---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py        | 2 +-
 .../commands/state/PDFTextState/PDFFont/fonts.py          | 8 ++++----
 .../commands/state/PDFTextState/PDFFont/util.py           | 7 +++++--
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index c9e5782..2e3deb8 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -36,7 +36,7 @@ class PDFFont(object):
         self.italic_angle = num_value(descriptor.get('ItalicAngle', 0))
         self.default_width = num_value(descriptor.get('MissingWidth', 0)) if default_width is None else default_width
         self.leading = num_value(descriptor.get('Leading', 0))
-        self.bbox = list_value(descriptor.get('FontBBox', (0, 0, 0, 0)))
+        self.bbox = [num_value(x) for x in list_value(descriptor.get('FontBBox', (0, 0, 0, 0)))]
         self.hscale = self.vscale = .001
         return
 
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index f19b04a..c8e0301 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -34,7 +34,7 @@ class PDFType1Font(PDFSimpleFont):
             firstchar = int_value(spec.get('FirstChar', 0))
             #lastchar = int_value(spec.get('LastChar', 255))
             widths = list_value(spec.get('Widths', []))
-            widths = dict((i+firstchar, w) for (i, w) in enumerate(widths))
+            widths = dict((i+firstchar, num_value(w)) for (i, w) in enumerate(widths))
         PDFSimpleFont.__init__(self, descriptor, widths, spec)
         if 'Encoding' not in spec and 'FontFile' in descriptor:
             # try to recover the missing encoding info from the font file.
@@ -63,7 +63,7 @@ class PDFType3Font(PDFSimpleFont):
         firstchar = int_value(spec.get('FirstChar', 0))
         #lastchar = int_value(spec.get('LastChar', 0))
         widths = list_value(spec.get('Widths', []))
-        widths = dict((i+firstchar, w) for (i, w) in enumerate(widths))
+        widths = dict((i+firstchar, num_value(w)) for (i, w) in enumerate(widths))
         if 'FontDescriptor' in spec:
             descriptor = dict_value(spec['FontDescriptor'])
         else:
@@ -144,7 +144,7 @@ class PDFCIDFont(PDFFont):
             # writing mode: vertical
             widths = get_widths2(list_value(spec.get('W2', [])))
             self.disps = dict((cid, (vx, vy)) for (cid, (_, (vx, vy))) in iter(widths.items()))
-            (vy, w) = spec.get('DW2', [880, -1000])
+            (vy, w) = [num_value(x) for x in list_value(spec.get('DW2', [880, -1000]))]
             self.default_disp = (None, vy)
             widths = dict((cid, w) for (cid, (w, _)) in iter(widths.items()))
             default_width = w
@@ -153,7 +153,7 @@ class PDFCIDFont(PDFFont):
             self.disps = {}
             self.default_disp = 0
             widths = get_widths(list_value(spec.get('W', [])))
-            default_width = spec.get('DW', 1000)
+            default_width = num_value(spec.get('DW', 1000))
         PDFFont.__init__(self, descriptor, widths, default_width=default_width)
         return
 
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
index fc01caf..4d199b9 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
@@ -1,3 +1,4 @@
+from pdfmajor.parser.PDFStream import num_value, resolve1
 from pdfmajor.utils import FONT_METRICS, choplist, isnumber
 
 
@@ -5,11 +6,12 @@ def get_widths(seq):
     widths = {}
     r = []
     for v in seq:
+        v = resolve1(v)
         if isinstance(v, list):
             if r:
                 char1 = r[-1]
                 for (i, w) in enumerate(v):
-                    widths[char1+i] = w
+                    widths[char1+i] = num_value(w)
                 r = []
         elif isnumber(v):
             r.append(v)
@@ -27,10 +29,11 @@ def get_widths2(seq):
     widths = {}
     r = []
     for v in seq:
+        v = resolve1(v)
         if isinstance(v, list):
             if r:
                 char1 = r[-1]
-                for (i, (w, vx, vy)) in enumerate(choplist(3, v)):
+                for (i, (w, vx, vy)) in enumerate(choplist(3, [num_value(x) for x in v])):
                     widths[char1+i] = (w, (vx, vy))
                 r = []
         elif isnumber(v):
-- 
2.43.0


From 1d14652513797be27c05491f1df7fcd9cedb1b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:53 +0000
Subject: [PATCH 71/88] fix: ranges of widths that are written as reals

---
 .../interpreter/commands/state/PDFTextState/PDFFont/util.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
index 4d199b9..65537bd 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
@@ -17,7 +17,7 @@ def get_widths(seq):
             r.append(v)
             if len(r) == 3:
                 (char1, char2, w) = r
-                for i in range(char1, char2+1):
+                for i in range(int(char1), int(char2)+1):
                     widths[i] = w
                 r = []
     return widths
@@ -40,7 +40,7 @@ def get_widths2(seq):
             r.append(v)
             if len(r) == 5:
                 (char1, char2, w, vx, vy) = r # pylint: disable=E0632
-                for i in range(char1, char2+1):
+                for i in range(int(char1), int(char2)+1):
                     widths[i] = (w, (vx, vy))
                 r = []
     return widths
-- 
2.43.0


From 7c8a17e528528d61f7cd33b72c4f782d943748e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:53 +0000
Subject: [PATCH 72/88] fix: fonts of unknown weight, and font names that are
 no text

---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 2e3deb8..3117c81 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -14,6 +14,7 @@ from pdfmajor.parser.PDFStream import list_value
 from pdfmajor.parser.PDFStream import PDFStream
 from pdfmajor.parser.cmapdb import FileUnicodeMap
 from pdfmajor.parser.cmapdb import CMapParser
+from pdfmajor.utils import isnumber
 
 
 ##  Literals
@@ -30,6 +31,8 @@ class PDFFont(object):
         self.fontname = resolve1(descriptor.get('FontName', 'unknown'))
         if isinstance(self.fontname, PSLiteral):
             self.fontname = literal_name(self.fontname)
+        if isinstance(self.fontname, bytes):
+            self.fontname = self.fontname.decode('latin1')
         self.flags = int_value(descriptor.get('Flags', 0))
         self.ascent = num_value(descriptor.get('Ascent', 0))
         self.descent = num_value(descriptor.get('Descent', 0))
@@ -92,7 +95,7 @@ class PDFFont(object):
     @property
     def font_weight(self):
         if 'FontWeight' in self.descriptor.keys():
-            return self.descriptor['FontWeight']
+            return resolve1(self.descriptor['FontWeight'])
         elif 'bold' in self.fontname.lower():
             return 'bold'
         else:
@@ -100,7 +103,8 @@ class PDFFont(object):
     
     @property
     def is_bold(self):
-        return self.font_weight == 'bold' or self.font_weight > 549
+        weight = self.font_weight
+        return weight == 'bold' or (isnumber(weight) and weight > 549)
 
 # PDFSimpleFont
 class PDFSimpleFont(PDFFont):
-- 
2.43.0


From 97392653dbf3a2abde83693850160531737307b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:20 +0000
Subject: [PATCH 73/88] fix: names of CMaps cannot lead to other folders

---
 pdfmajor/parser/cmapdb/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 78f4466..e3c5e8a 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -218,6 +218,9 @@ class CMapDB(object):
     @classmethod
     def _load_data(klass, name):
         name = name.replace("\0", "")
+        if os.path.basename(name) != name:
+            # names come from documents, no other folder can be named
+            raise CMapNotFound(name)
         filename = '%s.pickle.gz' % name
         log.info('loading: %r', name)
         cmap_paths = (os.environ.get('CMAP_PATH', '/usr/share/pdfminer/'),
-- 
2.43.0


From 9d2165e46eada3c1af4c9fbe4ecf59e9c620c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:23 +0000
Subject: [PATCH 74/88] fix: sizes and colour spaces of images that are given
 as references

---
 .../interpreter/commands/state/layout/LTImage.py     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index f2e7bc1..a8f0c8c 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -5,7 +5,7 @@ import PIL as pillow
 
 from pdfmajor.BMPWriter import BMPWriter
 from pdfmajor.utils import Bbox
-from pdfmajor.parser.PDFStream import PDFStream, LITERALS_DCT_DECODE
+from pdfmajor.parser.PDFStream import PDFStream, LITERALS_DCT_DECODE, resolve1
 from pdfmajor.parser.constants import LIT
 
 from ._base import LTComponent
@@ -22,11 +22,11 @@ class LTImage(LTComponent):
         LTComponent.__init__(self, bbox)
         self.name = name
         self.stream = stream
-        self.srcsize = (stream.get_any(('W', 'Width')),
-                        stream.get_any(('H', 'Height')))
-        self.imagemask = stream.get_any(('IM', 'ImageMask'))
-        self.bits = stream.get_any(('BPC', 'BitsPerComponent'), 1)
-        self.colorspace = stream.get_any(('CS', 'ColorSpace'))
+        self.srcsize = (resolve1(stream.get_any(('W', 'Width'))),
+                        resolve1(stream.get_any(('H', 'Height'))))
+        self.imagemask = resolve1(stream.get_any(('IM', 'ImageMask')))
+        self.bits = resolve1(stream.get_any(('BPC', 'BitsPerComponent'), 1))
+        self.colorspace = resolve1(stream.get_any(('CS', 'ColorSpace')))
         if not isinstance(self.colorspace, list):
             self.colorspace = [self.colorspace]
         return
-- 
2.43.0


From 13efa603f1e654c15a1aaded1ded21fb4311f4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:23 +0000
Subject: [PATCH 75/88] fix: saved images have the size of the picture, not the
 one on the page

---
 pdfmajor/interpreter/commands/state/layout/LTImage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index a8f0c8c..001323f 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -39,8 +39,7 @@ class LTImage(LTComponent):
     def save_image(self, outdir: str, file_name: str = None):
         stream = self.stream
         filters = stream.get_filters()
-        width = self.bbox.width
-        height = self.bbox.height
+        (width, height) = self.srcsize
         bits = self.bits
 
         if len(filters) == 1 and filters[0][0] in LITERALS_DCT_DECODE:
-- 
2.43.0


From 4e899549ca955b08be799a6a9a760f2ff7ceec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:23 +0000
Subject: [PATCH 76/88] fix: the colour space of an image decides how it is
 saved

---
 .../interpreter/commands/state/layout/LTImage.py  | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index 001323f..884b877 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -10,9 +10,9 @@ from pdfmajor.parser.constants import LIT
 
 from ._base import LTComponent
 
-LITERAL_DEVICE_GRAY = LIT('DeviceGray')
-LITERAL_DEVICE_RGB = LIT('DeviceRGB')
-LITERAL_DEVICE_CMYK = LIT('DeviceCMYK')
+LITERALS_DEVICE_GRAY = (LIT('DeviceGray'), LIT('G'))
+LITERALS_DEVICE_RGB = (LIT('DeviceRGB'), LIT('RGB'))
+LITERALS_DEVICE_CMYK = (LIT('DeviceCMYK'), LIT('CMYK'))
 
 ##  LTImage
 ##
@@ -41,11 +41,12 @@ class LTImage(LTComponent):
         filters = stream.get_filters()
         (width, height) = self.srcsize
         bits = self.bits
+        colorspace = resolve1(self.colorspace[0]) if self.colorspace else None
 
         if len(filters) == 1 and filters[0][0] in LITERALS_DCT_DECODE:
             ext = '.jpg'
         elif (bits == 1 or
-                bits == 8 and self.colorspace in (LITERAL_DEVICE_RGB, LITERAL_DEVICE_GRAY)):
+                bits == 8 and colorspace in LITERALS_DEVICE_RGB + LITERALS_DEVICE_GRAY):
             ext = '.w%dh%d.bmp' % (width, height)
         else:
             ext = '.b%dw%dh%d.img' % (bits, width, height)
@@ -59,7 +60,7 @@ class LTImage(LTComponent):
         with open(path, 'wb') as fp:
             if ext == '.jpg':
                 raw_data = stream.get_rawdata()
-                if LITERAL_DEVICE_CMYK in self.colorspace:
+                if colorspace in LITERALS_DEVICE_CMYK:
                     ifp = BytesIO(raw_data)
                     i = pillow.Image.open(ifp)
                     i = pillow.ImageChops.invert(i)
@@ -69,9 +70,9 @@ class LTImage(LTComponent):
                     fp.write(raw_data)
             elif bits == 1:
                 BMPWriter.write_all(fp, stream, 1, width, height, (width+7)//8)
-            elif bits == 8 and self.colorspace is LITERAL_DEVICE_RGB:
+            elif bits == 8 and colorspace in LITERALS_DEVICE_RGB:
                 BMPWriter.write_all(fp, stream, 24, width, height, width*3)
-            elif bits == 8 and self.colorspace is LITERAL_DEVICE_GRAY:
+            elif bits == 8 and colorspace in LITERALS_DEVICE_GRAY:
                 BMPWriter.write_all(fp, stream, 8, width, height, width)
             else:
                 fp.write(stream.get_data())
-- 
2.43.0


From e7b33b9385d5087d1622a82bc121cb94741cf10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:23 +0000
Subject: [PATCH 77/88] fix: saving photographs in CMYK failed with
 AttributeError

---
 pdfmajor/interpreter/commands/state/layout/LTImage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index 884b877..58b883b 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -1,7 +1,7 @@
 import os
 from io import BytesIO
 
-import PIL as pillow
+from PIL import Image, ImageChops
 
 from pdfmajor.BMPWriter import BMPWriter
 from pdfmajor.utils import Bbox
@@ -62,8 +62,8 @@ class LTImage(LTComponent):
                 raw_data = stream.get_rawdata()
                 if colorspace in LITERALS_DEVICE_CMYK:
                     ifp = BytesIO(raw_data)
-                    i = pillow.Image.open(ifp)
-                    i = pillow.ImageChops.invert(i)
+                    i = Image.open(ifp)
+                    i = ImageChops.invert(i)
                     i = i.convert('RGB')
                     i.save(fp, 'JPEG')
                 else:
-- 
2.43.0


From 9287fdd3ba0bcfefc9e9f89e07e7602dc0a0a2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:23 +0000
Subject: [PATCH 78/88] fix: saved bitmaps have the number of bits they are
 asked for

---
 pdfmajor/BMPWriter/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/BMPWriter/__init__.py b/pdfmajor/BMPWriter/__init__.py
index 2e93a9a..ba0ad70 100644
--- a/pdfmajor/BMPWriter/__init__.py
+++ b/pdfmajor/BMPWriter/__init__.py
@@ -13,7 +13,7 @@ class BMPWriter(object):
 
     @classmethod
     def write_all(cls, fp, stream: PDFStream, bits: int, width: float, height: float, step: float):
-        bmp = cls(fp, 1, width, height)
+        bmp = cls(fp, bits, width, height)
         data = stream.get_data()
         i = 0
         for y in range(height):
-- 
2.43.0


From d1e6256be91c0718c104ba2a9df61a8b38a9d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:23 +0000
Subject: [PATCH 79/88] fix: saved bitmaps had red and blue exchanged

---
 pdfmajor/BMPWriter/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/BMPWriter/__init__.py b/pdfmajor/BMPWriter/__init__.py
index ba0ad70..59aabaa 100644
--- a/pdfmajor/BMPWriter/__init__.py
+++ b/pdfmajor/BMPWriter/__init__.py
@@ -17,7 +17,11 @@ class BMPWriter(object):
         data = stream.get_data()
         i = 0
         for y in range(height):
-            bmp.write_line(y, data[i:i+step])
+            line = data[i:i+step]
+            if bits == 24:
+                # bitmaps hold blue first
+                line = b''.join(line[x:x+3][::-1] for x in range(0, len(line), 3))
+            bmp.write_line(y, line)
             i += step
 
     def __init__(self, fp, bits, width, height):
-- 
2.43.0


From c25cfeeadf6c39a7deb652401a97db5d7ade4172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:23 +0000
Subject: [PATCH 80/88] fix: the last line of saved bitmaps lacked its padding

---
 pdfmajor/BMPWriter/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/BMPWriter/__init__.py b/pdfmajor/BMPWriter/__init__.py
index 59aabaa..7c18e21 100644
--- a/pdfmajor/BMPWriter/__init__.py
+++ b/pdfmajor/BMPWriter/__init__.py
@@ -60,5 +60,5 @@ class BMPWriter(object):
 
     def write_line(self, y, data):
         self.fp.seek(self.pos1 - (y+1)*self.linesize)
-        self.fp.write(data)
+        self.fp.write(data + b'\0' * (self.linesize - len(data)))
         return
-- 
2.43.0


From 35c0c5ea5f9b16e86e84d1b17d7497cd79076ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:57 +0000
Subject: [PATCH 81/88] fix: saving encrypted photographs, or ones that were
 read before

---
 pdfmajor/interpreter/commands/state/layout/LTImage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index 58b883b..03ff0c5 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -59,7 +59,7 @@ class LTImage(LTComponent):
         
         with open(path, 'wb') as fp:
             if ext == '.jpg':
-                raw_data = stream.get_rawdata()
+                raw_data = stream.get_data()
                 if colorspace in LITERALS_DEVICE_CMYK:
                     ifp = BytesIO(raw_data)
                     i = Image.open(ifp)
-- 
2.43.0


From 57d3f210e88f0f963d6f9a19f215f76be5306965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:57 +0000
Subject: [PATCH 82/88] fix: photographs below other filters were saved as
 bitmaps

---
 pdfmajor/interpreter/commands/state/layout/LTImage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index 03ff0c5..0d06ea3 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -43,7 +43,7 @@ class LTImage(LTComponent):
         bits = self.bits
         colorspace = resolve1(self.colorspace[0]) if self.colorspace else None
 
-        if len(filters) == 1 and filters[0][0] in LITERALS_DCT_DECODE:
+        if filters and filters[-1][0] in LITERALS_DCT_DECODE:
             ext = '.jpg'
         elif (bits == 1 or
                 bits == 8 and colorspace in LITERALS_DEVICE_RGB + LITERALS_DEVICE_GRAY):
-- 
2.43.0


From 378467cbd0cb34c881c5f078f45455c0ef069c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 83/88] fix: code 173 of WinAnsiEncoding is a hyphen

---
 pdfmajor/utils/encoding/latin_enc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/utils/encoding/latin_enc.py b/pdfmajor/utils/encoding/latin_enc.py
index 2b73bac..a5126b3 100644
--- a/pdfmajor/utils/encoding/latin_enc.py
+++ b/pdfmajor/utils/encoding/latin_enc.py
@@ -214,7 +214,7 @@ LATIN_ENCODING = [
   ('slash', 47, 47, 47, 47),
   ('space', 32, 32, 32, 32),
   ('space', None, 202, 160, None),
-  ('space', None, 202, 173, None),
+  ('hyphen', None, None, 173, None),
   ('sterling', 163, 163, 163, 163),
   ('t', 116, 116, 116, 116),
   ('thorn', None, None, 254, 254),
-- 
2.43.0


From 6d943e521a0e6b698277e84fa8b4c823458f97c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:12 +0000
Subject: [PATCH 84/88] fix: bytes behind the end of LZW data were decoded

---
 pdfmajor/utils/lzw.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/utils/lzw.py b/pdfmajor/utils/lzw.py
index 03d0dc7..5d8d15a 100644
--- a/pdfmajor/utils/lzw.py
+++ b/pdfmajor/utils/lzw.py
@@ -83,6 +83,9 @@ class LZWDecoder(object):
                 code = self.readbits(self.nbits)
             except EOFError:
                 break
+            if code == 257:
+                # what follows the end of the data is none
+                break
             try:
                 x = self.feed(code)
             except CorruptDataError:
-- 
2.43.0


From a9c14605adc85923b76b368a6453d61dfda9b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:12 +0000
Subject: [PATCH 85/88] fix: LZW data that lack the first code, or are damaged
 there

---
 pdfmajor/utils/lzw.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/utils/lzw.py b/pdfmajor/utils/lzw.py
index 5d8d15a..55dc61a 100644
--- a/pdfmajor/utils/lzw.py
+++ b/pdfmajor/utils/lzw.py
@@ -19,6 +19,8 @@ class LZWDecoder(object):
         self.nbits = 9
         self.table = None
         self.prevbuf = None
+        # data need not begin by clearing the table
+        self.feed(256)
         return
 
     def readbits(self, bits):
@@ -57,6 +59,8 @@ class LZWDecoder(object):
         elif code == 257:
             pass
         elif not self.prevbuf:
+            if code > 257:
+                raise CorruptDataError
             x = self.prevbuf = self.table[code]
         else:
             if code < len(self.table):
-- 
2.43.0


From 2ea86c920828e3aa8a75d1336e065a53a46fce35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:41 +0000
Subject: [PATCH 86/88] fix: EarlyChange of LZW data was ignored

---
 pdfmajor/parser/PDFStream/__init__.py |  2 +-
 pdfmajor/utils/lzw.py                 | 16 +++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 1d9e524..98a6d52 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -98,7 +98,7 @@ class PDFStream(PDFObject):
                         raise PDFException('Invalid zlib bytes: %r, %r' % (e, data))
                     data = b''
             elif f in LITERALS_LZW_DECODE:
-                data = lzwdecode(data)
+                data = lzwdecode(data, int_value(params.get('EarlyChange', 1)))
             elif f in LITERALS_ASCII85_DECODE:
                 data = ascii85decode(data)
             elif f in LITERALS_ASCIIHEX_DECODE:
diff --git a/pdfmajor/utils/lzw.py b/pdfmajor/utils/lzw.py
index 55dc61a..f14ff33 100644
--- a/pdfmajor/utils/lzw.py
+++ b/pdfmajor/utils/lzw.py
@@ -12,8 +12,10 @@ class CorruptDataError(Exception):
 ##
 class LZWDecoder(object):
 
-    def __init__(self, fp):
+    def __init__(self, fp, early=1):
         self.fp = fp
+        # how many codes earlier than needed codes become longer
+        self.early = early
         self.buff = 0
         self.bpos = 8
         self.nbits = 9
@@ -71,12 +73,12 @@ class LZWDecoder(object):
                 x = self.table[code]
             else:
                 raise CorruptDataError
-            l = len(self.table)
-            if l == 511:
+            l = len(self.table) + self.early
+            if l == 512:
                 self.nbits = 10
-            elif l == 1023:
+            elif l == 1024:
                 self.nbits = 11
-            elif l == 2047:
+            elif l == 2048:
                 self.nbits = 12
             self.prevbuf = x
         return x
@@ -102,7 +104,7 @@ class LZWDecoder(object):
 
 
 # lzwdecode
-def lzwdecode(data):
+def lzwdecode(data, early=1):
     fp = BytesIO(data)
-    s=LZWDecoder(fp).run()
+    s=LZWDecoder(fp, early).run()
     return b''.join(s)
-- 
2.43.0


From a39485cc39e2e71ab96fdfc1abd5f79aa1030725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:41 +0000
Subject: [PATCH 87/88] fix: fax data without Columns could not be decoded

---
 pdfmajor/parser/PDFStream/ccitt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index b58afb5..7455b07 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -547,7 +547,7 @@ class CCITTFaxDecoder(CCITTG4Parser):
 
 def ccittfaxdecode(data, params):
     K = params.get('K')
-    cols = params.get('Columns')
+    cols = params.get('Columns', 1728)
     bytealign = params.get('EncodedByteAlign')
     reversed = params.get('BlackIs1')
     if K == -1:
-- 
2.43.0


From 34c6aa4bfc13210160dbf19919b11457d0ea4ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:44 +0000
Subject: [PATCH 88/88] fix: damaged fax data raised instead of giving the rows
 before

---
 pdfmajor/parser/PDFStream/ccitt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index 7455b07..619e60b 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -337,6 +337,9 @@ class CCITTG4Parser(BitParser):
                 self._state = self.MODE
             except EOFB:
                 break
+            except InvalidData:
+                # what follows the damage cannot be decoded
+                break
         return
 
     def _parse_mode(self, mode):
-- 
2.43.0

