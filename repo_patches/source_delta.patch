From 10bdef9cfd3997c5ed0210a73bb8bfe884d241d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 01/18] fix: print trailing marker details of the last line
 without a line break

---
 kolombos/byteio/segment/buffer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kolombos/byteio/segment/buffer.py b/kolombos/byteio/segment/buffer.py
index b417ea0..2fb4246 100644
--- a/kolombos/byteio/segment/buffer.py
+++ b/kolombos/byteio/segment/buffer.py
@@ -75,7 +75,8 @@ class SegmentBuffer:
             raise EOFError
 
         if has_newline or force:
-            detached = self._detach(avail_bytes)
+            # last line without a line break: zero-length segments (marker details) should not be left behind
+            detached = self._detach(avail_bytes, drain=not has_newline)
             return self._format_multiple(detached, printers)
 
         self._debug_buffer.write(1, 'Responsing with WaitRequest')
@@ -107,7 +108,7 @@ class SegmentBuffer:
 
         return result
 
-    def _detach(self, req_bytes: int) -> List[Chainable]:
+    def _detach(self, req_bytes: int, drain: bool = False) -> List[Chainable]:
         self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
 
         if len(self._segment_chain) == 0:
@@ -119,7 +120,7 @@ class SegmentBuffer:
             cur_element = self._segment_chain[0]
 
             if isinstance(cur_element, Segment):
-                if req_bytes == 0:
+                if req_bytes == 0 and not drain:
                     break
 
                 if cur_element.data_len <= req_bytes:
@@ -134,7 +135,7 @@ class SegmentBuffer:
                     break
 
             elif isinstance(cur_element, StartSequenceRef):
-                if req_bytes == 0:
+                if req_bytes == 0 and not drain:
                     break
                 output.append(cur_element)
                 self._active_sgrs.append(cur_element.ref)
-- 
2.43.0


From f9d466c6df49ba7bb2c55e145f2723f50288f20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 02/18] fix: recognise valid UTF-8 sequences right after binary
 data bytes

---
 kolombos/byteio/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index 098859f..815558f 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -37,7 +37,7 @@ class Parser:
                 b'\xf4[\x80-\x8f][\x80-\xbf]{2}'       # - plane 16           # double slash in grp 4 is essential or #
                 b')|'                                                         # regex goes batshit crazy: \x5b is '[' #
                 +                                                             # # # # # # # # # # # # # # # # # # # # #
-                b'([\x80-\xff]+)|'                     # [1] BINARY DATA                                              |
+                b'([\x80-\xff][\x80-\xc1\xf5-\xff]*)|'  # [1] BINARY DATA (up to next possible UTF-8 start)            |
                 +                                                             # ESCAPE SEQUENCES                      |
                 b'((\x1b)(\\x5b)([\x30-\x3f]*)([\x20-\x2f]*)([\x40-\x7e]))|'  # [ 2|  3-7] CSI/SGR sequences   <- - - +
                 b'((\x1b)([\x20-\x2f])([\x20-\x2f]*)([\x30-\x7e]))|'          # [ 8| 9-12] nF escape sequences
-- 
2.43.0


From 455af6eff43c22b948cfb15505f97f29b0a7f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 03/18] fix: do not break sequences split between two read
 buffers

---
 kolombos/byteio/parser/buffer.py |  7 +++----
 kolombos/byteio/parser/parser.py | 15 ++++++++++++++-
 kolombos/runner/byteio.py        |  1 +
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/kolombos/byteio/parser/buffer.py b/kolombos/byteio/parser/buffer.py
index bc89d04..5b41e6b 100644
--- a/kolombos/byteio/parser/buffer.py
+++ b/kolombos/byteio/parser/buffer.py
@@ -35,11 +35,10 @@ class ParserBuffer:
             self._debug_buffer.write(2, f'Buffer state: {Console.printd(self._raw_buffer)}')
             return
 
-        offset_delta = self._raw_buffer.find(new_buffer)
-        if offset_delta == -1:
-            raise RuntimeError(f'New buffer is not a part of the current one: {Console.printd(new_buffer, 32)}')
+        if not self._raw_buffer.endswith(new_buffer):
+            raise RuntimeError(f'New buffer is not a tail of the current one: {Console.printd(new_buffer, 32)}')
 
-        self._raw_buffer = self._raw_buffer[offset_delta:]
+        self._raw_buffer = new_buffer
         self._debug_buffer.write(3, f'Cropping')
         self._debug_buffer.write(2, f'Buffer state: {Console.printd(self._raw_buffer)}')
 
diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index 815558f..0d2af60 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -59,6 +59,13 @@ class Parser:
                 b'([\x21-\x7e]+)',                     # [33] printable chars (letters, digits, punctuation)
             self._substitute)
 
+        # beginning of a sequence that can be completed by the data which is not read yet
+        self.F_INCOMPLETE_TAIL = re.compile(
+                b'(?:'
+                b'[\xc2-\xdf]|[\xe0-\xef][\x80-\xbf]?|[\xf0-\xf4][\x80-\xbf]{0,2}|'  # UTF-8
+                b'\x1b(?:\\x5b[\x30-\x3f]*[\x20-\x2f]*|[\x20-\x2f]*)'                 # escape sequences
+                b')\\Z')
+
         self.MGROUP_TO_TPL_MAP: Dict[int, Template|MatchResolver] = {  # @FIXME map templates to regexps
             0: self._template_registry.UTF_8_SEQ,                      #        and build F_SEPARATOR automatically?
             1: self._template_registry.BINARY_DATA,
@@ -89,13 +96,19 @@ class Parser:
         self._offset = offset
         self._debug_buffer.write(1, f'Parsing segment: {Console.printd(raw)}')
 
+        incomplete = b''
+        if not self._parser_buffer.closed:
+            if tail := self.F_INCOMPLETE_TAIL.search(raw):
+                incomplete = tail.group()
+                raw = raw[:tail.start()]
+
         unmatched = apply_filters(raw, self.F_SEPARATOR)
         try:
             assert len(unmatched) == 0, f'Some bytes unprocessed: {Console.printd(unmatched)})'
         except AssertionError as e:
             raise RuntimeError(f'Parsing inconsistency at 0x{self._offset:x}/{self._offset:d}') from e
 
-        self._parser_buffer.crop_raw(unmatched)
+        self._parser_buffer.crop_raw(incomplete)
 
     def _substitute(self, m: Match) -> bytes:
         mgroups = {idx: grp for idx, grp in enumerate(m.groups()) if grp}
diff --git a/kolombos/runner/byteio.py b/kolombos/runner/byteio.py
index cf45428..040a6a8 100644
--- a/kolombos/runner/byteio.py
+++ b/kolombos/runner/byteio.py
@@ -40,6 +40,7 @@ class ByteIoRunner(AbstractRunner):
         self._formatter = FormatterFactory.create(self._parser_buffer, self._segment_buffer)
 
     def _process_chunk_buffered(self, raw_input: bytes, offset: int, finish: bool):
+        offset -= len(self._parser_buffer.get_raw())  # incomplete sequence left from the previous chunk
         self._parser_buffer.append_raw(raw_input, finish)
         self._parser.parse(offset)
         self._formatter.format()
-- 
2.43.0


From 8521309d5acf4174377347a8f60af94265d8cb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 04/18] fix: do not crash on SGR sequences with non-numeric
 params

---
 kolombos/byteio/template/template_escape_sgr.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/kolombos/byteio/template/template_escape_sgr.py b/kolombos/byteio/template/template_escape_sgr.py
index dfcf912..0b6cd35 100644
--- a/kolombos/byteio/template/template_escape_sgr.py
+++ b/kolombos/byteio/template/template_escape_sgr.py
@@ -4,6 +4,8 @@
 # -----------------------------------------------------------------------------
 from __future__ import annotations
 
+from typing import List
+
 from pytermor import SequenceSGR, IntCodes, Seqs
 
 from . import EscapeSequenceTemplate
@@ -36,7 +38,7 @@ class EscapeSequenceSGRTemplate(EscapeSequenceTemplate):
         self._details_fmt_str = s.decode('ascii')
 
         params = self._details_fmt_str.split(';')
-        pcodes = [int(p.split(":")[0]) for p in params if p]
+        pcodes = [self._parse_param(p) for p in params if p]
         pcodes_allowed = []
         brief_names = []
         while len(pcodes):  # @TODO automatically set black/white text if only bg color is defined, and vice versa
@@ -44,11 +46,11 @@ class EscapeSequenceSGRTemplate(EscapeSequenceTemplate):
 
             if pcode == IntCodes.COLOR_EXTENDED or pcode == IntCodes.BG_COLOR_EXTENDED:
                 brief_type = 'F' if pcode == IntCodes.COLOR_EXTENDED else 'B'
-                if len(pcodes) >= 2 and pcodes[0] == IntCodes.EXTENDED_MODE_256:
+                if len(pcodes) >= 2 and pcodes[0] == IntCodes.EXTENDED_MODE_256 and self._are_numeric(pcodes[:2]):
                     pcodes_allowed.extend([pcode, pcodes.pop(0), pcodes.pop(0)])
                     brief_names.append(f'{brief_type}{pcodes_allowed[-1]}')
                     continue
-                if len(pcodes) >= 4 and pcodes[0] == IntCodes.EXTENDED_MODE_RGB:
+                if len(pcodes) >= 4 and pcodes[0] == IntCodes.EXTENDED_MODE_RGB and self._are_numeric(pcodes[:4]):
                     pcodes_allowed.extend([pcode, *[pcodes.pop(0) for _ in range(4)]])
                     brief_names.append(
                         f'{brief_type}'
@@ -62,6 +64,15 @@ class EscapeSequenceSGRTemplate(EscapeSequenceTemplate):
         self._brief_details_processed = f'{Seqs.UNDERLINED_OFF}{self.M1_SEPARATOR}{Seqs.UNDERLINED}'.join(str(bn) for bn in brief_names)
         self._details_opening_seq = SequenceSGR(*pcodes_allowed)
 
+    def _parse_param(self, p: str) -> int|str:
+        try:
+            return int(p.split(":")[0])
+        except ValueError:
+            return p  # private parameters (e.g. '>4') and other non-numeric values are displayed as is
+
+    def _are_numeric(self, pcodes: List[int|str]) -> bool:
+        return all(isinstance(pcode, int) for pcode in pcodes)
+
     def _get_brief_details_processed(self) -> str:
         if self._brief_details_processed is not None:
             return self._brief_details_processed
-- 
2.43.0


From ecb03f02f686013411743a57d1107c2e02502010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 05/18] fix: keep displaying data in binary mode when terminal
 is too narrow

---
 kolombos/byteio/formatter/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/formatter/binary.py b/kolombos/byteio/formatter/binary.py
index a10486c..1e4f208 100644
--- a/kolombos/byteio/formatter/binary.py
+++ b/kolombos/byteio/formatter/binary.py
@@ -104,7 +104,7 @@ class BinaryFormatter(AbstractFormatter):
         chunk_len = (3 * self.BYTE_CHUNK_LEN) + \
                     (self.BYTE_CHUNK_LEN - 1) + \
                     len(self.PADDING_HEX_CHUNK)
-        chunk_fit = floor(available_total / chunk_len)
+        chunk_fit = max(1, floor(available_total / chunk_len))  # display something even if it does not fit
 
         result = chunk_fit * self.BYTE_CHUNK_LEN
         self._debug_buffer.write(2, f'Columns amount set to: {Spans.BOLD(result)}')
-- 
2.43.0


From 53f2c7f8673de3a60953b98d1c6bc80ede885e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 06/18] fix: treat zero amount of columns as auto

---
 kolombos/byteio/formatter/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/formatter/binary.py b/kolombos/byteio/formatter/binary.py
index 1e4f208..69c982b 100644
--- a/kolombos/byteio/formatter/binary.py
+++ b/kolombos/byteio/formatter/binary.py
@@ -33,7 +33,7 @@ class BinaryFormatter(AbstractFormatter):
 
     def format(self):
         cur_cols = self._cols
-        if cur_cols is None:
+        if not cur_cols or cur_cols < 0:  # auto
             prefix_example = Console.format_prefix_with_offset(self._offset, NOOP_SPAN)
             cur_cols = self._compute_cols_num(len(prefix_example))
 
-- 
2.43.0


From 362bc4818d69dbbff3e8bd82acd57b0c0ae17789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 07/18] fix: do not truncate offsets longer than prefix length

---
 kolombos/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/console.py b/kolombos/console.py
index 244237d..15a0b0b 100644
--- a/kolombos/console.py
+++ b/kolombos/console.py
@@ -252,7 +252,7 @@ class Console:
 
     @staticmethod
     def format_prefix(label: str, f: Span) -> str:
-        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}.{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()
+        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()
         prefix = re.sub('0x', lambda m: Spans.DIM(m.group()), prefix)
         return prefix
 
-- 
2.43.0


From 892d26fd21ccbafe15ded4ef2c491cb8911f03b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 08/18] fix: keep original bytes in control char segments with
 details

---
 kolombos/byteio/template/template_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/template/template_control.py b/kolombos/byteio/template/template_control.py
index 93727ca..785b4b0 100644
--- a/kolombos/byteio/template/template_control.py
+++ b/kolombos/byteio/template/template_control.py
@@ -40,7 +40,7 @@ class ControlCharGenericTemplate(Template):
             label_processed = self._process_byte(label_raw)
             self._substituted.append(self._create_primary_segment(
                 self._opening_seq_stack.get(self._display_mode, self._read_mode),
-                bytes(label_raw),
+                bytes([label_raw]),
                 label_processed,
             ))
             self._fill_additional_segments(label_raw)
-- 
2.43.0


From a62177e8d142b24ad7408710bf773a8d4fb8e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 09/18] fix: keep the required length of auto float when
 rounding adds a digit

---
 pytermor/util/auto_float.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 11c994f..6001172 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -155,4 +155,10 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
     # this by itself: f'{12.3:.0f}' => '12'
     dot_str = f'.{decimals_len!s}'
 
-    return f'{sign}{abs_value:{req_len}{dot_str}f}'
+    result = f'{abs_value:{req_len}{dot_str}f}'
+    if len(result) > req_len:
+        # rounding added one more integer digit, e.g.
+        # req_len = 5, abs_value = 9.9999 => 10.000
+        result = f'{abs_value:{req_len}.{decimals_len - 1}f}'
+
+    return f'{sign}{result}'
-- 
2.43.0


From ce8853fc96bb91e81e49484031d451dcf46d59ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 10/18] fix: use SI-prefixes for fractional values as
 documented

---
 pytermor/util/prefixed_unit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytermor/util/prefixed_unit.py b/pytermor/util/prefixed_unit.py
index 553e688..5c065eb 100644
--- a/pytermor/util/prefixed_unit.py
+++ b/pytermor/util/prefixed_unit.py
@@ -114,11 +114,11 @@ class PrefixedUnitFormatter:
         unit_idx = self._prefix_zero_idx
 
         while 0 <= unit_idx < len(self._prefixes):
-            if 0.0 < abs(value) <= 1 / self._mcoef:
+            is_frac_dropped = self._truncate_frac and unit_idx == self._prefix_zero_idx
+            if 0.0 < abs(value) < 1 and not is_frac_dropped:
                 value *= self._mcoef
                 unit_idx -= 1
-                if abs(value) <= 1:
-                    continue
+                continue
             elif abs(value) >= self._mcoef:
                 value /= self._mcoef
                 unit_idx += 1
-- 
2.43.0


From 900aa4f33b625d5290013e03bd1c4814f1863c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 11/18] fix: do not drop explicit sequences of a span

---
 pytermor/ansi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/ansi.py b/pytermor/ansi.py
index 416e543..336054a 100644
--- a/pytermor/ansi.py
+++ b/pytermor/ansi.py
@@ -348,7 +348,7 @@ class Span:
 
     @classmethod
     def _opt_arg(self, arg: SequenceSGR | None) -> SequenceSGR:
-        if not arg:
+        if arg is None:  # any sequence is falsy, because its length is 0
             return NOOP_SEQ
         return arg
 
-- 
2.43.0


From 07568c407d26bb0e8ae3586358eb1a12a7d193b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 12/18] fix: do not drop falsy values on Text creation

---
 pytermor/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/render.py b/pytermor/render.py
index d514dd0..d674b67 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -162,7 +162,7 @@ class Text(Renderable):
 
     class _TextRun(Renderable):
         def __init__(self, string: Any = None, style: Style|str = None):
-            self._string: str = str(string) if string else ''
+            self._string: str = str(string) if string is not None else ''
             if isinstance(style, str):
                 style = Style(fg=style)
             self._style: Style|None = style
-- 
2.43.0


From 38ddf5d2e7d7a412137f96e339b7eb238dfc49ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 13/18] fix: do not change Text contents while formatting it

---
 pytermor/render.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytermor/render.py b/pytermor/render.py
index d674b67..d23e2e1 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -179,8 +179,7 @@ class Text(Renderable):
             return len(self._string)
 
         def __format__(self, *args, **kwargs) -> str:
-            self._string = self._string.__format__(*args, **kwargs)
-            return self.render()
+            return self.__class__(self._string.__format__(*args, **kwargs), self._style).render()
 
 
 @dataclass
-- 
2.43.0


From b984d4ed4a275df3905e0f3b28b5c4b8ec8b6fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 14/18] fix: render NOOP_COLOR_INDEXED into empty sequence

---
 pytermor/color.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytermor/color.py b/pytermor/color.py
index 1f919b8..bf87219 100644
--- a/pytermor/color.py
+++ b/pytermor/color.py
@@ -147,6 +147,8 @@ class ColorIndexed16(_ColorIndexed):
         super().__init__(hex_value)
         
     def to_sgr(self, bg: bool = False) -> SequenceSGR:
+        if self._hex_value is None:
+            return NOOP_SEQ
         if bg:
             return SequenceSGR(self._code_bg)
         return SequenceSGR(self._code_fg)
-- 
2.43.0


From 09aba2d5b5b1d2f312d4ad96a5cb9441cae7747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 15/18] fix: minus sign goes right before the digits of a
 padded number

---
 pytermor/util/auto_float.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 6001172..6befa06 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -132,7 +132,7 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
         except ValueError:
             return f'{sign}e{exponent}'.rjust(req_len)
 
-        return f'{sign}{significand_str}e{exponent}'
+        return f'{sign}{significand_str.lstrip()}e{exponent}'.rjust(len(sign) + req_len)
 
     integer_len = max(1, exponent + 1)
     if integer_len == req_len:
@@ -161,4 +161,5 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
         # req_len = 5, abs_value = 9.9999 => 10.000
         result = f'{abs_value:{req_len}.{decimals_len - 1}f}'
 
-    return f'{sign}{result}'
+    # sign goes right before the digits (and after padding)
+    return f'{sign}{result.lstrip()}'.rjust(len(sign) + req_len)
-- 
2.43.0


From 11b83041833b3c9513896bb7b86adb2dbdab1c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:46 +0000
Subject: [PATCH 16/18] fix: maximum length of a time delta formatter did not
 take two-unit results into account

---
 pytermor/util/time_delta.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/pytermor/util/time_delta.py b/pytermor/util/time_delta.py
index 85f2986..c468655 100644
--- a/pytermor/util/time_delta.py
+++ b/pytermor/util/time_delta.py
@@ -82,6 +82,7 @@ class TimeDeltaFormatter:
         self._plural_suffix = plural_suffix
         self._overflow_msg = overflow_msg
 
+        self._max_len = 0  # being computed
         self._max_len = self._compute_max_len()
 
     @property
@@ -175,25 +176,34 @@ class TimeDeltaFormatter:
         return result or ''
 
     def _compute_max_len(self) -> int:
-        max_len = 0
-        coef = 1.00
+        test_vals = [0, 0.5]  # "0 secs", "<1 sec"
+        coef = 1
 
         for unit in self._units:
-            test_val = unit.in_next
-            if not test_val:
-                test_val = unit.overflow_afer
-            if not test_val:
+            if unit.in_next:
+                limits = [unit.in_next]
+            elif unit.overflow_afer:
+                limits = [unit.overflow_afer + 1]
+            else:
                 continue
-            test_val_seconds = coef * (test_val - 1) * (-1 if self._allow_negative else 1)
 
+            # two units at once can be longer than the biggest amount of a single one
+            if unit.collapsible_after:
+                limits.append(min(unit.collapsible_after, limits[0]))
+
+            test_vals.extend(coef * limit - 1 for limit in limits)
+            coef *= unit.in_next or unit.overflow_afer
+
+        if self._allow_negative:
+            test_vals.extend([-test_val for test_val in test_vals])
+
+        max_len = 0
+        for test_val in test_vals:
             try:
-                max_len_unit = self.format_raw(test_val_seconds)
+                max_len = max(max_len, len(self.format_raw(test_val)))
             except RecursionError:
                 continue
 
-            max_len = max(max_len, len(max_len_unit))
-            coef *= unit.in_next or unit.overflow_afer
-
         return max_len
 
 
-- 
2.43.0


From e94395576b5a55a576c4627b6d89f6b0deebb919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:22 +0000
Subject: [PATCH 17/18] fix: unit given to the prefixed unit formatter was
 dropped for values out of the range of prefixes

---
 pytermor/util/prefixed_unit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytermor/util/prefixed_unit.py b/pytermor/util/prefixed_unit.py
index 5c065eb..ec0315c 100644
--- a/pytermor/util/prefixed_unit.py
+++ b/pytermor/util/prefixed_unit.py
@@ -140,7 +140,8 @@ class PrefixedUnitFormatter:
         num_str = format_auto_float(value,
                                     self._max_value_len,
                                     allow_exponent_notation=False)
-        unit_full = ('?' * max([len(p) for p in self._prefixes if p])) + self._unit
+        unit_full = ('?' * max([len(p) for p in self._prefixes if p])) + \
+                    (unit or self._unit)
         return f'{num_str.strip()}{self._unit_separator}{unit_full.strip()}'
 
 
-- 
2.43.0


From e98538c32a24efc16179f0464d2966a88d466871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:18 +0000
Subject: [PATCH 18/18] fix: distribute_padded(): do not change the list of the
 caller

With pad_before or pad_after the empty edge values were put into the given
list itself, so that a second call with the same list got wider each time.
---
 pytermor/render.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytermor/render.py b/pytermor/render.py
index d23e2e1..3c577d2 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -754,6 +754,7 @@ class Styles(Registry[Style]):
 
 def distribute_padded(values: List, max_len: int, pad_before: bool = False,
                       pad_after: bool = False, ) -> str:
+    values = list(values)
     if pad_before:
         values.insert(0, '')
     if pad_after:
-- 
2.43.0

