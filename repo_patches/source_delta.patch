From 997a730309e78c9169e7710ff9089f8bdff7c333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 01/68] fix: decode UTF-8 in quoted text read from a byte
 stream

---
 amazon/ion/reader_text.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index dcb8c50..f1742ce 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2168,6 +2168,15 @@ def _skip_trampoline(handler):
 _next_code_point_iter = partial(_next_code_point, yield_char=_NARROW_BUILD)
 
 
+def _utf8_trailing_length(octet):
+    """Returns the number of octets that must follow the given first octet of a UTF-8 encoded code point."""
+    if octet >= 0xF0:
+        return 3
+    if octet >= 0xE0:
+        return 2
+    return 1 if octet >= 0xC0 else 0
+
+
 @coroutine
 def _next_code_point_handler(whence, ctx):
     """Retrieves the next code point from within a quoted string or symbol."""
@@ -2247,6 +2256,18 @@ def _next_code_point_handler(whence, ctx):
         while code_point is None:
             yield ctx.read_data_event(self)
             code_point = next(code_point_generator)
+        if not queue.is_unicode and ctx.ion_type is not IonType.CLOB and code_point > _MAX_CLOB_CHAR:
+            # Text in a binary stream is UTF-8. Gather the rest of the multi-byte sequence.
+            encoded = six.int2byte(code_point)
+            for _ in range(_utf8_trailing_length(code_point)):
+                if len(queue) == 0:
+                    yield ctx.read_data_event(self)
+                encoded += six.int2byte(next(queue_iter))
+            try:
+                decoded = encoded.decode(_ENCODING)
+            except UnicodeDecodeError:
+                _illegal_character(None, ctx, 'Invalid UTF-8 sequence %r.' % (encoded,))
+            code_point = next(_next_code_point_iter(decoded, iter(decoded), to_int=ord))
         if escaped_newline:
             code_point = CodePoint(code_point)
             code_point.char = _ESCAPED_NEWLINE
-- 
2.43.0


From 5a93b843391952a651ebcc04b95cc4f85c29ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 02/68] fix: quote symbols whose text reads as a symbol
 identifier or version marker

---
 amazon/ion/writer_text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index ce26441..6288840 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -248,9 +248,12 @@ _DOUBLE_QUOTE = b'"'
 # all typed nulls (such as null.int) and the +inf, and -inf keywords are covered by this regex
 _UNQUOTED_SYMBOL_REGEX = re.compile(r'\A[a-zA-Z$_][a-zA-Z0-9$_]*\Z')
 _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES = set(['nan', 'null', 'false', 'true'])
+# unquoted, these would be read as a symbol identifier (such as $10) or as an Ion version marker (such as $ion_1_1)
+_RESERVED_SYMBOL_REGEX = re.compile(r'\A\$(?:[0-9]+|ion_[0-9]+_[0-9]+)\Z')
 
 def _symbol_needs_quotes(text):
-    return text in _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES or _UNQUOTED_SYMBOL_REGEX.search(text) is None
+    return text in _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES or _UNQUOTED_SYMBOL_REGEX.search(text) is None \
+        or _RESERVED_SYMBOL_REGEX.search(text) is not None
 
 def _serialize_symbol_value(value, suffix=b''):
     # TODO Support not quoting operators in s-expressions: http://amzn.github.io/ion-docs/docs/symbols.html
-- 
2.43.0


From 933b197c7d5cb391306f435af03d3161d159c1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 03/68] fix: write struct fields with an empty name in binary

---
 amazon/ion/writer_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/writer_binary.py b/amazon/ion/writer_binary.py
index 36cb17e..0e8a450 100644
--- a/amazon/ion/writer_binary.py
+++ b/amazon/ion/writer_binary.py
@@ -168,7 +168,7 @@ def _managed_binary_writer_coroutine(imports):
     def intern_symbols(event):
         field_name = event.field_name
         annotations = event.annotations
-        if field_name:
+        if field_name is not None:
             event = event.derive_field_name(intern_symbol(field_name))
         if annotations:
             event = event.derive_annotations(
-- 
2.43.0


From c9c055a3bd4f2cbc1cf29d3ff20e5dfe3ca013a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 04/68] fix: read and write binary decimals exactly, whatever
 the decimal context

---
 amazon/ion/reader_binary.py     | 11 +++--------
 amazon/ion/writer_binary_raw.py | 16 +++++++++-------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index b515acd..ce465d2 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -20,7 +20,7 @@ from __future__ import print_function
 import six
 
 from datetime import timedelta
-from decimal import Decimal, localcontext
+from decimal import Decimal
 from functools import partial
 from io import BytesIO
 from struct import unpack
@@ -186,7 +186,6 @@ def _parse_signed_int_components(buf):
 
 def _parse_decimal(buf):
     """Parses the remainder of a file-like object as a decimal."""
-    from decimal import localcontext
     exponent = _parse_var_int(buf, signed=True)
     sign_bit, coefficient = _parse_signed_int_components(buf)
 
@@ -194,12 +193,8 @@ def _parse_decimal(buf):
         # Handle the zero cases--especially negative zero
         value = Decimal((sign_bit, (0,), exponent))
     else:
-        coefficient *= sign_bit and -1 or 1
-        with localcontext() as context:
-            # Adjusting precision for taking into account arbitrarily
-            # large/small numbers
-            context.prec = len(str(coefficient))
-            value = Decimal(coefficient).scaleb(exponent)
+        # This does not use decimal arithmetic, as the current context limits its precision and exponent range.
+        value = Decimal((sign_bit, tuple(int(digit) for digit in str(coefficient)), exponent))
 
     return value
 
diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index a153687..6f54214 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -21,7 +21,7 @@ from __future__ import print_function
 
 
 from datetime import datetime
-from decimal import Decimal, localcontext
+from decimal import Decimal
 from functools import partial
 
 import six
@@ -170,9 +170,15 @@ def _write_decimal_value(buf, exponent, coefficient, sign=0):
     return length
 
 
+def _decimal_coefficient(sign, digits):
+    # This does not use decimal arithmetic, as the current context limits its precision and exponent range.
+    coefficient = int(''.join(str(digit) for digit in digits))
+    return -coefficient if sign else coefficient
+
+
 def _write_timestamp_fractional_seconds(buf, value):
     sign, digits, exponent = value.as_tuple()
-    coefficient = int(value.scaleb(-exponent).to_integral_value())
+    coefficient = _decimal_coefficient(sign, digits)
     if coefficient == 0 and exponent >= 0:
         length = 0
     else:
@@ -185,11 +191,7 @@ def _serialize_decimal(ion_event):
     value = ion_event.value
     validate_scalar_value(value, Decimal)
     sign, digits, exponent = value.as_tuple()
-    with localcontext() as context:
-        # Adjusting precision for taking into account arbitrarily large/small
-        # numbers
-        context.prec = len(digits)
-        coefficient = int(value.scaleb(-exponent).to_integral_value())
+    coefficient = _decimal_coefficient(sign, digits)
     if not sign and not exponent and not coefficient:
         # The value is 0d0; other forms of zero will fall through.
         buf.append(_Zeros.DECIMAL)
-- 
2.43.0


From 4534127d2317fb1adc39840e8fbbaf181b96de85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 05/68] fix: keep timestamp fractions of more than 28 digits
 exact

---
 amazon/ion/core.py        | 8 +++++---
 amazon/ion/reader_text.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 1371729..53d202c 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -21,7 +21,7 @@ from __future__ import print_function
 
 from collections import MutableMapping, MutableSequence, OrderedDict
 from datetime import datetime, timedelta, tzinfo
-from decimal import Decimal, ROUND_FLOOR, Context, Inexact
+from decimal import Decimal, ROUND_FLOOR, Context, Inexact, localcontext
 from math import isnan
 
 import six
@@ -496,8 +496,10 @@ class Timestamp(datetime):
                 fractional_seconds_exponent = 0
                 fractional_seconds = DECIMAL_ZERO
             fractional_precision = min(-fractional_seconds_exponent, MICROSECOND_PRECISION)
-            # Scale to microseconds and truncate to an integer.
-            args = replace_microsecond(int(fractional_seconds * BASE_TEN_MICROSECOND_PRECISION_EXPONENTIATION))
+            # Scale to microseconds and truncate to an integer. The scaled value must not be rounded.
+            with localcontext() as context:
+                context.prec = len(fractional_seconds.as_tuple().digits) + MICROSECOND_PRECISION + 1
+                args = replace_microsecond(int(fractional_seconds * BASE_TEN_MICROSECOND_PRECISION_EXPONENTIATION))
         elif datetime_microseconds is not None:
             if fractional_precision is None:
                 fractional_precision = MICROSECOND_PRECISION
diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index f1742ce..8b9a1c8 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -925,7 +925,7 @@ def _parse_timestamp(tokens):
 
             fraction = tokens[_TimestampState.FRACTIONAL]
             if fraction is not None:
-                fraction = Decimal(int(fraction)).scaleb(-1 * len(fraction))
+                fraction = Decimal('0.' + _decode(fraction))
         return timestamp(
             year, month, day,
             hour, minute, second, None,
-- 
2.43.0


From dc0733fc6c3de6db9460896e01f168845a21cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 06/68] fix: reject decimal NaN and infinities in text as in
 binary, instead of writing a symbol

---
 amazon/ion/writer_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 6288840..424ed91 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -116,6 +116,8 @@ _serialize_float = _serialize_scalar_from_string_representation_factory(
 
 # TODO Make this cleaner.
 def _decimal_str(val):
+    if not val.is_finite():
+        raise ValueError('Ion decimals cannot represent %s.' % (val,))
     text = str(val)
     new_text = _EXPONENT_PAT.sub('d', text)
     if text == new_text and text.find('.') == -1:
-- 
2.43.0


From 41006761aabdcb0644872a75bf8b959d5e67bbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 07/68] fix: write timestamps without an explicit precision in
 text, as in binary

---
 amazon/ion/writer_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 424ed91..2a601d7 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -145,6 +145,8 @@ def _bytes_utc_offset(dt):
 def _bytes_datetime(dt):
     original_dt = dt
     precision = getattr(original_dt, TIMESTAMP_PRECISION_FIELD, TimestampPrecision.SECOND)
+    if precision is None:
+        precision = TimestampPrecision.SECOND
     if dt.year < 1900:
         # In some Python interpreter versions, strftime inexplicably does not support pre-1900 years.
         # This unfortunate ugliness compensates for that.
-- 
2.43.0


From 9ab12aa4d2813f459d8fe242d5d0bc6e0960405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 08/68] fix: compare repeated struct fields as multisets in
 ion_equals

---
 amazon/ion/equivalence.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index ac733dd..0dc1a89 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -148,8 +148,14 @@ def _structs_eq(a, b, comparison_func):
                 values_b = b.get_all_values(key)
                 if len(values_a) != len(values_b):
                     return False
+                # Each value must be matched by a different value, as the same value may occur more than once.
+                unmatched = list(values_b)
                 for value_a in values_a:
-                    if not any(comparison_func(value_a, value_b) for value_b in values_b):
+                    for i, value_b in enumerate(unmatched):
+                        if comparison_func(value_a, value_b):
+                            del unmatched[i]
+                            break
+                    else:
                         return False
             else:
                 if not comparison_func(a[key], b[key]):
-- 
2.43.0


From 3bed0ee93c895fb204a9d4468d12a343682e9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 09/68] fix: return the given default from SymbolTable.get for
 unknown text

---
 amazon/ion/symbols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/symbols.py b/amazon/ion/symbols.py
index 252852d..5b3a3e5 100644
--- a/amazon/ion/symbols.py
+++ b/amazon/ion/symbols.py
@@ -282,7 +282,7 @@ class SymbolTable(object):
             SymbolToken: The token associated with the key or the default if it doesn't exist.
         """
         if isinstance(key, six.text_type):
-            return self.__mapping.get(key, None)
+            return self.__mapping.get(key, default)
         if not isinstance(key, int):
             raise TypeError('Key must be int or Unicode sequence.')
 
-- 
2.43.0


From c78ec1037e36cb2edec9a30e2e5fdc1478d99732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 10/68] fix: do not treat a symbol as a stream of values in
 dump

---
 amazon/ion/simpleion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index 6aab1ca..0c550ca 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -149,7 +149,7 @@ def dump(obj, fp, imports=None, binary=True, sequence_as_stream=False, skipkeys=
     from_type = _FROM_TYPE_TUPLE_AS_SEXP if tuple_as_sexp else _FROM_TYPE
     if binary or not omit_version_marker:
         writer.send(ION_VERSION_MARKER_EVENT)  # The IVM is emitted automatically in binary; it's optional in text.
-    if sequence_as_stream and isinstance(obj, (list, tuple)):
+    if sequence_as_stream and isinstance(obj, (list, tuple)) and not isinstance(obj, SymbolToken):
         # Treat this top-level sequence as a stream; serialize its elements as top-level values, but don't serialize the
         # sequence itself.
         for top_level in obj:
-- 
2.43.0


From 7d4502315eebed846cda94cd0d20e92b9ed841f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 11/68] fix: load from the current position of a file, not from
 its start

---
 amazon/ion/simpleion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index 0c550ca..c88150b 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -355,8 +355,9 @@ def load(fp, catalog=None, single_value=True, encoding='utf-8', cls=None, object
     if isinstance(fp, _TEXT_TYPES):
         raw_reader = text_reader(is_unicode=True)
     else:
+        start = fp.tell()
         maybe_ivm = fp.read(4)
-        fp.seek(0)
+        fp.seek(start)
         if maybe_ivm == _IVM:
             raw_reader = binary_reader()
         else:
-- 
2.43.0


From d3bbf3033dc564489c6ff846d9f4d2aa25734443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 12/68] fix: allocate a symbol ID for every element of a local
 symbol table's symbols list

---
 amazon/ion/reader_managed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index a6ef05a..a64e2b4 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -138,9 +138,8 @@ def _symbols_handler(symbols, whence):
             # We need to skip past this container (ignoring the end container event).
             ion_event, _ = yield Transition(SKIP_EVENT, self)
 
-        if ion_type is IonType.STRING:
-            # Add the potentially null text.
-            symbols.append(ion_event.value)
+        # Add the potentially null text. An element that is not a string still takes up a symbol ID.
+        symbols.append(ion_event.value if ion_type is IonType.STRING else None)
 
         ion_event, _ = yield Transition(NEXT_EVENT, self)
 
-- 
2.43.0


From 9c8855a0677888327fc4cfe3c43cc7ee4fd0c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 13/68] fix: default or ignore malformed fields of symbol table
 imports as the Ion specification requires

---
 amazon/ion/reader_managed.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index a64e2b4..3e2fa3c 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -166,7 +166,8 @@ def _import_desc_handler(ctx, imports, whence):
         ion_type = ion_event.ion_type
 
         if event_type is IonEventType.CONTAINER_END:
-            if desc.name is not None or desc.name == TEXT_ION:
+            # An import with no name is ignored, and the system symbols are always imported implicitly.
+            if desc.name and desc.name != TEXT_ION:
                 table = ctx.catalog.resolve(desc.name, desc.version, desc.max_id)
                 imports.append(table)
 
@@ -180,9 +181,13 @@ def _import_desc_handler(ctx, imports, whence):
             if field_name == TEXT_NAME and ion_type is IonType.STRING:
                 desc.name = ion_event.value
             elif field_name == TEXT_VERSION and ion_type is IonType.INT:
-                desc.version = ion_event.value
+                # The version defaults to 1 when it is not a positive int.
+                if ion_event.value is not None and ion_event.value > 0:
+                    desc.version = ion_event.value
             elif field_name == TEXT_MAX_ID and ion_type is IonType.INT:
-                desc.max_id = ion_event.value
+                # The maximum ID is undefined when it is not a non-negative int.
+                if ion_event.value is not None and ion_event.value >= 0:
+                    desc.max_id = ion_event.value
 
         ion_event, _ = yield Transition(NEXT_EVENT, self)
 
-- 
2.43.0


From 8038c7f13a5676f964092d1325c73feffb79e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 14/68] fix: ignore a null symbol as the imports of a local
 symbol table

---
 amazon/ion/reader_managed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index 3e2fa3c..4797013 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -246,6 +246,7 @@ def _local_symbol_table_handler(ctx):
                 ion_event, _ = yield Transition(SKIP_EVENT, self)
         elif ion_type == IonType.SYMBOL \
                 and field_name == TEXT_IMPORTS \
+                and ion_event.value is not None \
                 and ctx.resolve(ion_event.value).text == TEXT_ION_SYMBOL_TABLE:
             if ctx.symbol_table.table_type.is_system:
                 # Force the imports to nothing (system tables import implicitly).
-- 
2.43.0


From a6025e30258117e904820d772e63fd9d06f205ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 15/68] fix: reject local symbol tables with repeated imports
 or symbols fields

---
 amazon/ion/reader_managed.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index 4797013..768e5bd 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -217,6 +217,7 @@ def _imports_handler(ctx, imports, whence):
 def _local_symbol_table_handler(ctx):
     symbols = []
     imports = None
+    seen = set()
 
     ion_event, self = yield
     while True:
@@ -230,6 +231,11 @@ def _local_symbol_table_handler(ctx):
         else:
             field_name = ctx.resolve(ion_event.field_name).text
 
+        if field_name == TEXT_SYMBOLS or field_name == TEXT_IMPORTS:
+            if field_name in seen:
+                raise IonException('Local symbol table with more than one %s field.' % (field_name,))
+            seen.add(field_name)
+
         trans = Transition(NEXT_EVENT, self)
         if event_type is IonEventType.CONTAINER_START:
             if field_name == TEXT_SYMBOLS and ion_type is IonType.LIST:
-- 
2.43.0


From d22f8dade4caf3b7c25e4071845b0fada627b50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 16/68] fix: accept NOP pads with any field name in structs and
 reject annotated NOP pads

---
 amazon/ion/reader_binary.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index ce465d2..5098a2b 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -434,9 +434,8 @@ def _ivm_handler(ctx):
 def _nop_pad_handler(ion_type, length, ctx):
     yield
 
-    if ctx.field_name is not None and ctx.field_name != SYMBOL_ZERO_TOKEN:
-        raise IonException(
-            'Cannot have NOP pad with non-zero symbol field, field SID %d' % ctx.field_name)
+    if ctx.annotations is not None:
+        raise IonException('NOP pads cannot be annotated.')
 
     if length > 0:
         yield ctx.read_data_transition(length, ctx.whence, skip=True)
-- 
2.43.0


From faf62d65cb51f0917f81d190d04033f022b18f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 17/68] fix: reject binary negative integers with a zero
 magnitude

---
 amazon/ion/reader_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 5098a2b..c2d1701 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -637,6 +637,8 @@ def _int_factory(sign, data):
         if length == 1:
             value <<= 8
             value |= six.indexbytes(data, -length)
+        if sign < 0 and value == 0:
+            raise IonException('Negative integers must have a non-zero magnitude.')
         return sign * value
     return parse_int
 
-- 
2.43.0


From 51c1aa4c3c2183ee7e5ea9104800aec7da0f6f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 18/68] fix: end text values at vertical tab and form feed,
 which are whitespace

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 8b9a1c8..2ab7a8e 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -96,7 +96,7 @@ _ENCODING = 'utf-8'
 # between how bytes objects are handled in python 2 and 3, and simplifies logic around comparing multi-byte characters.
 _WHITESPACE_NOT_NL = _seq(b' \t\v\f')
 _WHITESPACE = _WHITESPACE_NOT_NL + _seq(b'\n\r')
-_VALUE_TERMINATORS = _seq(b'{}[](),\"\' \t\n\r/')
+_VALUE_TERMINATORS = _seq(b'{}[](),\"\' \t\v\f\n\r/')
 _SYMBOL_TOKEN_TERMINATORS = _WHITESPACE + _seq(b'/:')
 _DIGITS = _seq(b'0123456789')
 _BINARY_RADIX = _seq(b'Bb')
-- 
2.43.0


From ab3666dfc705d0c34f8fa5a39a966ffc11f73802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 19/68] fix: accept only Ion whitespace as indentation

---
 amazon/ion/writer_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 2a601d7..61c8cc3 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -451,7 +451,7 @@ def raw_writer(indent=None):
         ``HAS_PENDING`` :class:`WriteEventType` events.
     """
 
-    is_whitespace_str = isinstance(indent, str) and re.search(r'\A\s*\Z', indent, re.M) is not None
+    is_whitespace_str = isinstance(indent, str) and re.search(r'\A[ \t\v\f\r\n]*\Z', indent) is not None
     if not (indent is None or is_whitespace_str):
         raise ValueError('The indent parameter must either be None or a string containing only whitespace')
 
-- 
2.43.0


From 99263d639d037c76ad6959916fc77c601e423463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 20/68] fix: restore enumeration members as themselves when
 unpickled or deep-copied

---
 amazon/ion/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amazon/ion/util.py b/amazon/ion/util.py
index 475a5d7..7073c6f 100644
--- a/amazon/ion/util.py
+++ b/amazon/ion/util.py
@@ -19,6 +19,7 @@ from __future__ import absolute_import
 from __future__ import division
 from __future__ import print_function
 
+import operator
 import six
 import sys
 
@@ -94,6 +95,10 @@ class Enum(int):
     def __getnewargs__(self):
         return (self.name, self.value)
 
+    def __reduce_ex__(self, protocol):
+        # Members are compared by identity, so pickling and copying must lead back to the same instance.
+        return operator.getitem, (type(self), self.value)
+
     def __str__(self):
         return '<%s.%s: %s>' % (type(self).__name__, self.name, self.value)
     __repr__ = __str__
-- 
2.43.0


From ec9c388e64959c0f215b81ddd2ace42e55243845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 21/68] fix: keep the Ion type, annotations and precision of
 decimals and timestamps when pickled or copied

---
 amazon/ion/core.py         | 13 +++++++++++++
 amazon/ion/simple_types.py | 16 +++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 53d202c..b4fb76f 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -391,6 +391,10 @@ PRECISION_LIMIT_LOOKUP = (
 DATETIME_CONSTRUCTOR_MICROSECOND_ARGUMENT_INDEX = 6
 
 
+def _restore_timestamp(cls, args, kwargs):
+    return cls(*args, **kwargs)
+
+
 class Timestamp(datetime):
     """Sub-class of :class:`datetime` that supports a precision field; a ``fractional_precision``
         field that specifies the  precision of the``microseconds`` field in :class:`datetime`;
@@ -527,6 +531,15 @@ class Timestamp(datetime):
 
         return instance
 
+    def __reduce_ex__(self, protocol):
+        # Without this, pickling and copying would only preserve the fields of datetime.
+        args = (self.year, self.month, self.day, self.hour, self.minute, self.second, None, self.tzinfo)
+        kwargs = {
+            TIMESTAMP_PRECISION_FIELD: getattr(self, TIMESTAMP_PRECISION_FIELD),
+            TIMESTAMP_FRACTIONAL_SECONDS_FIELD: getattr(self, TIMESTAMP_FRACTIONAL_SECONDS_FIELD)
+        }
+        return _restore_timestamp, (type(self), args, kwargs), getattr(self, '__dict__', None)
+
     def __repr__(self):
         return 'Timestamp(%04d-%02d-%02dT%02d:%02d:%02d.%06d, %r, %r, %s=%s)' % \
                (self.year, self.month, self.day,
diff --git a/amazon/ion/simple_types.py b/amazon/ion/simple_types.py
index 9db902d..c41eb0a 100644
--- a/amazon/ion/simple_types.py
+++ b/amazon/ion/simple_types.py
@@ -151,11 +151,25 @@ else:
 
 IonPyBool = IonPyInt
 IonPyFloat = _ion_type_for('IonPyFloat', float)
-IonPyDecimal = _ion_type_for('IonPyDecimal', Decimal)
 IonPyText = _ion_type_for('IonPyText', six.text_type)
 IonPyBytes = _ion_type_for('IonPyBytes', six.binary_type)
 
 
+class IonPyDecimal(Decimal, _IonNature):
+    def __init__(self, *args, **kwargs):
+        super(IonPyDecimal, self).__init__(*args, **kwargs)
+
+    # Decimal's own support for pickling and copying only preserves the number.
+    def __reduce__(self):
+        return type(self), (str(self),), self.__dict__
+
+    def __copy__(self):
+        return self._copy()
+
+    def __deepcopy__(self, memo):
+        return self._copy()
+
+
 class IonPySymbol(SymbolToken, _IonNature):
     def __init__(self, *args, **kwargs):
         super(IonPySymbol, self).__init__(*args, **kwargs)
-- 
2.43.0


From 284620c25414c4efb3e26cc2213747a7f3d7ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 22/68] fix: do not mistake a byte 0x04 that arrives alone for
 the end of the stream

---
 amazon/ion/reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader.py b/amazon/ion/reader.py
index 1ada2ab..fcc6401 100644
--- a/amazon/ion/reader.py
+++ b/amazon/ion/reader.py
@@ -111,7 +111,12 @@ class CodePointArray:
         raise ValueError('Attempted to delete from code point sequence.')
 
 
-_EOF = b'\x04'  # End of transmission character.
+class _EndOfFile(six.binary_type):
+    # Single bytes may be interned, so only an instance of another type is distinct from the same byte of data.
+    pass
+
+
+_EOF = _EndOfFile(b'\x04')  # End of transmission character.
 
 
 class BufferQueue(object):
-- 
2.43.0


From 19dfa670b235cf070f82d2fbac6d2f5cfe71e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 23/68] fix: do not lose the value that follows a comment after
 an annotation or field name

---
 amazon/ion/reader_text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 2ab7a8e..124b9a2 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2043,6 +2043,9 @@ def _container_handler(c, ctx):
                 if not is_value_decorated():
                     # This is the start of a new child value.
                     child_context = ctx.derive_child_context(self)
+                else:
+                    # A comment after the decoration would have set these.
+                    child_context.set_self_delimiting(False).set_line_comment(False)
                 if is_field_name:
                     handler = _FIELD_NAME_START_TABLE[c](c, child_context)
                 else:
-- 
2.43.0


From 0d15269a72f7a7011a2ca15a5ae6e9a215c74a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 24/68] fix: read an annotated value after an empty symbol that
 follows a long string

---
 amazon/ion/reader_text.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 124b9a2..4804ab6 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1155,7 +1155,12 @@ def _long_string_handler(c, ctx, is_field_name=False):
                                 partial(_quoted_symbol_handler, c, is_field_name=False),
                             )
                         else:  # quotes == 2
-                            trans = _CompositeTransition(trans, ctx, None, ctx.set_empty_symbol())
+                            trans = _CompositeTransition(
+                                trans,
+                                ctx,
+                                None,
+                                ctx.derive_child_context(ctx.whence).set_empty_symbol(),
+                            )
                 elif c not in _WHITESPACE:
                     if is_clob:
                         trans = ctx.immediate_transition(_clob_end_handler(c, ctx))
-- 
2.43.0


From 88db247da4f247bd028f3e2d66812852c14ba7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 25/68] fix: end quoted text after an empty symbol, so that a
 comment may follow it

---
 amazon/ion/reader_text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 4804ab6..1a92672 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1632,7 +1632,8 @@ _two_single_quotes_handler = _single_quote_handler_factory(
         _long_string_handler(c, ctx, is_field_name)
     ),
     lambda c, ctx, is_field_name:
-        ctx.set_ion_type(IonType.SYMBOL).set_pending_symbol().immediate_transition(ctx.whence)  # Empty symbol.
+        ctx.set_ion_type(IonType.SYMBOL).set_pending_symbol().set_quoted_text(False)
+           .immediate_transition(ctx.whence)  # Empty symbol.
 )
 _long_string_or_symbol_handler = _single_quote_handler_factory(
     lambda c, ctx, is_field_name:
-- 
2.43.0


From 8640aa954bc29da1dafa37aff0201c00e86ee8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 26/68] fix: detect the end of data inside a variable length
 integer

---
 amazon/ion/reader_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index c2d1701..7c11e92 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -135,7 +135,7 @@ def _parse_var_int_components(buf, signed):
     sign = 1
     while True:
         ch = buf.read(1)
-        if ch == '':
+        if ch == b'':
             raise IonException('Variable integer under-run')
         octet = ord(ch)
         if signed:
-- 
2.43.0


From 202721e42a7c50cd1b2a455b89f267ebd40e1b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 27/68] fix: read a decimal with an explicit length of zero

---
 amazon/ion/reader_binary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 7c11e92..cfdc851 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -653,6 +653,9 @@ def _float_factory(data):
 
 def _decimal_factory(data):
     def parse_decimal():
+        if len(data) == 0:
+            # The length may be zero in any of its encodings.
+            return Decimal(0)
         return _parse_decimal(BytesIO(data))
 
     return parse_decimal
-- 
2.43.0


From 031277fb8c6047ba207409ce5320c8510ceefa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 28/68] fix: keep the state of a comment from leaking into a
 slash operator that follows it

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 1a92672..b148254 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1061,6 +1061,8 @@ def _sexp_slash_handler(c, ctx, whence=None, pending_event=None):
     if c == _ASTERISK or c == _SLASH:
         yield ctx.immediate_transition(_comment_handler(_SLASH, ctx, whence))
     else:
+        # A comment before the operator would have set these.
+        ctx.set_self_delimiting(False).set_line_comment(False)
         if pending_event is not None:
             # Since this is the start of a new value and not a comment, the pending event must be emitted.
             assert pending_event.event is not None
-- 
2.43.0


From 1dec881e1e1673738bbe88bd9b2ce07bb3284b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 29/68] fix: reject an unfinished comment after a long string
 instead of waiting forever

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index b148254..c62cdfc 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1039,6 +1039,8 @@ def _comment_handler(c, ctx, whence):
     while not done:
         c, _ = yield trans
         if block_comment:
+            if BufferQueue.is_eof(c):
+                _illegal_character(c, ctx, 'Unexpected EOF.')
             if prev == _ASTERISK and c == _SLASH:
                 done = True
             prev = c
-- 
2.43.0


From 44658c6593137565234fc53579e7d4975b51a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 30/68] fix: do not take $ion__0, which has no major version,
 for a version marker

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index c62cdfc..c9c9cfa 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1479,7 +1479,7 @@ def _symbol_identifier_or_unquoted_symbol_handler(c, ctx, is_field_name=False):
                     if c in _DIGITS:
                         if ivm_post_underscore:
                             complete_ivm = True
-                    elif c == _UNDERSCORE and not ivm_post_underscore:
+                    elif c == _UNDERSCORE and not ivm_post_underscore and prev in _DIGITS:
                         ivm_post_underscore = True
                     else:
                         maybe_ivm = False
-- 
2.43.0


From 688fffb959f1fbb4c1ba564cfdc1a953f44b85cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 31/68] fix: do not lose an empty symbol after a long string at
 the end of the stream

---
 amazon/ion/reader_text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index c9c9cfa..f0554ef 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2107,6 +2107,10 @@ def _container_handler(c, ctx):
                         )
                     complete = ctx.depth == 0
                     can_flush = False
+                    if has_pending_symbol():
+                        # An empty symbol followed a long string; the stream may not end before it is emitted.
+                        can_flush = complete
+                        complete = False
                     if is_container or is_self_delimiting:
                         # The end of the value has been reached, and c needs to be updated
                         assert not ctx.quoted_text
-- 
2.43.0


From df5910998c222a94b0a9311a1db563a43709e67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 32/68] fix: accept the end of the stream in a line comment
 after an annotated symbol

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index f0554ef..3bcaaa2 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1970,7 +1970,7 @@ def _container_handler(c, ctx):
                    ) or
                    (
                        child_context.line_comment and
-                       not is_value_decorated()
+                       (has_pending_symbol() or not is_value_decorated())
                    )
                )
 
-- 
2.43.0


From 01390619a9d857eebd0c950518f934f68d447fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:01 +0000
Subject: [PATCH 33/68] fix: read the symbols i and in directly after a plus or
 minus operator

---
 amazon/ion/reader_text.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 3bcaaa2..31d47c1 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1345,6 +1345,13 @@ def _inf_or_operator_handler_factory(c_start, is_delegate=True):
                     next_ctx = ctx.derive_child_context(ctx.whence)
                     for ch in _INF_SUFFIX[0:match_index]:
                         next_ctx.value.append(ch)
+                    if match_index < len(_INF_SUFFIX) and c not in _IDENTIFIER_CHARACTERS and \
+                            ctx.container is _C_SEXP:
+                        # The operator is followed by the symbol `i` or `in`. Its last character starts (and may end)
+                        # the token; the character after it is read again.
+                        ctx.queue.unread(c)
+                        c = _INF_SUFFIX[match_index - 1]
+                        next_ctx.value.pop()
                 break
             c, self = yield trans
         if ctx.container is not _C_SEXP:
-- 
2.43.0


From 96456cef27aaaa9be266f5ab867d29245cdc300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 34/68] fix: compare the values of two structs once instead of
 twice per level of nesting

---
 amazon/ion/equivalence.py | 45 ++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 0dc1a89..13952a1 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -134,32 +134,29 @@ def _structs_eq(a, b, comparison_func):
     dict_len = len(a)
     if dict_len != len(b):
         return False
-    for a, b in ((a, b), (b, a)):
-        key_iter = six.iterkeys(a)
-        while True:
-            try:
-                key = next(key_iter)
-            except StopIteration:
-                break
-            if key not in b:
+    for x, y in ((a, b), (b, a)):
+        for key in six.iterkeys(x):
+            if key not in y:
                 return False
-            if isinstance(a, Multimap) and isinstance(b, Multimap):
-                values_a = a.get_all_values(key)
-                values_b = b.get_all_values(key)
-                if len(values_a) != len(values_b):
-                    return False
-                # Each value must be matched by a different value, as the same value may occur more than once.
-                unmatched = list(values_b)
-                for value_a in values_a:
-                    for i, value_b in enumerate(unmatched):
-                        if comparison_func(value_a, value_b):
-                            del unmatched[i]
-                            break
-                    else:
-                        return False
-            else:
-                if not comparison_func(a[key], b[key]):
+    # Comparing the values in one direction is enough; doing it in both takes time exponential in the depth of nesting.
+    for key in six.iterkeys(a):
+        if isinstance(a, Multimap) and isinstance(b, Multimap):
+            values_a = a.get_all_values(key)
+            values_b = b.get_all_values(key)
+            if len(values_a) != len(values_b):
+                return False
+            # Each value must be matched by a different value, as the same value may occur more than once.
+            unmatched = list(values_b)
+            for value_a in values_a:
+                for i, value_b in enumerate(unmatched):
+                    if comparison_func(value_a, value_b):
+                        del unmatched[i]
+                        break
+                else:
                     return False
+        else:
+            if not comparison_func(a[key], b[key]):
+                return False
 
     return True
 
-- 
2.43.0


From 9193704f72a5075638e19412013ee58f9d0734c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 35/68] fix: reject text that ends after an unfinished
 container whose last token is complete

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 31d47c1..69827eb 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1854,7 +1854,7 @@ def _read_data_handler(whence, ctx, complete, can_flush):
                     yield Transition(None, whence)
             elif data_event.type is ReadEventType.NEXT:
                 queue.mark_eof()
-                if not can_flush:
+                if not can_flush or ctx.depth > 0:
                     _illegal_character(queue.read_byte(), ctx, "Unexpected EOF.")
                 yield Transition(None, whence)
         trans = Transition(complete and ION_STREAM_END_EVENT or ION_STREAM_INCOMPLETE_EVENT, self)
-- 
2.43.0


From 4b9e18ee5cc2d68f49beb40ced413f703ef47e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 36/68] fix: skip to the end of the innermost open container of
 a text after one of its members has ended

---
 amazon/ion/reader_text.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 69827eb..1942beb 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2183,9 +2183,11 @@ def _skip_trampoline(handler):
                     data_event, _ = yield Transition(event, self)
         else:
             trans, delegate, event = pass_through()
-            if event is not None and (event.event_type is IonEventType.CONTAINER_START or
-                                      event.event_type is IonEventType.CONTAINER_END):
-                depth = event.depth
+        # The depth at which the innermost open container will end.
+        if event is not None and event.event_type is IonEventType.CONTAINER_START:
+            depth = event.depth
+        elif event is not None and event.event_type is IonEventType.CONTAINER_END:
+            depth = event.depth - 1
         data_event, _ = yield Transition(event, self)
 
 
-- 
2.43.0


From f7f609aa83b862bb636a145c2a1883ba36548de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 37/68] fix: reject a binary container or field that runs over
 the end of its container as soon as it starts

---
 amazon/ion/reader_binary.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index cfdc851..8a9f668 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -283,6 +283,8 @@ class _HandlerContext(record(
         return Transition(None, delegate)
 
     def derive_container_context(self, length, add_depth=1):
+        if length > self.remaining:
+            raise IonException('Length overrun: %d bytes, %d remaining' % (length, self.remaining))
         new_limit = self.queue.position + length
         return _HandlerContext(
             self.position,
@@ -405,8 +407,9 @@ def _var_uint_field_handler(handler, ctx):
     queue = ctx.queue
     value = 0
     while True:
-        if len(queue) == 0:
-            # We don't know when the field ends, so read at least one byte.
+        # We don't know when the field ends, so read at least one byte. This also makes sure that the field does not
+        # run over the end of its container.
+        if len(queue) == 0 or ctx.remaining < 1:
             yield ctx.read_data_transition(1, self)
         octet = queue.read_byte()
         value <<= _VAR_INT_VALUE_BITS
-- 
2.43.0


From 3bfaed65e39387c045e1677a637e5bf093514479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 38/68] fix: reject a struct member without a field name whose
 symbol is a single character or the start of a keyword

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 1942beb..0c11699 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1289,7 +1289,7 @@ def _symbol_or_keyword_handler(c, ctx, is_field_name=False):
                 val.append(c)
                 match_index += 1
         else:
-            if c in _SYMBOL_TOKEN_TERMINATORS:
+            if (is_field_name and _ends_value(c)) or c in _SYMBOL_TOKEN_TERMINATORS:
                 # This might be an annotation or a field name
                 ctx.set_pending_symbol(val)
                 trans = ctx.immediate_transition(ctx.whence)
-- 
2.43.0


From 009a56a90e9570867605d64654209e42723db7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 39/68] fix: reject a binary version marker inside an
 annotation wrapper

---
 amazon/ion/reader_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 8a9f668..cc216d8 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -425,6 +425,8 @@ def _ivm_handler(ctx):
 
     if ctx.depth != 0:
         raise IonException('IVM encountered below top-level')
+    if ctx.annotations is not None:
+        raise IonException('IVM cannot be annotated.')
 
     yield ctx.read_data_transition(_IVM_TAIL_LEN, self)
     ivm_tail = ctx.queue.read(_IVM_TAIL_LEN)
-- 
2.43.0


From 05a217d0dccff7536d5a9424adb41406c8b86d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 40/68] fix: reject the text of a timestamp that has a T in the
 place of a hyphen

---
 amazon/ion/reader_text.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 0c11699..af9f708 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -953,7 +953,7 @@ def _timestamp_handler(c, ctx):
     val = None
     can_terminate = False
     if prev == _T:
-        nxt += _VALUE_TERMINATORS
+        nxt = _VALUE_TERMINATORS
         can_terminate = True
     while True:
         is_eof = can_terminate and BufferQueue.is_eof(c)
@@ -974,7 +974,10 @@ def _timestamp_handler(c, ctx):
                 nxt = _VALUE_TERMINATORS
                 can_terminate = True
             elif c == _T:
-                nxt = _VALUE_TERMINATORS + _DIGITS
+                nxt = _VALUE_TERMINATORS
+                if state == _TimestampState.DAY:
+                    # Only a complete date is followed by a time.
+                    nxt += _DIGITS
                 can_terminate = True
             elif c in _TIMESTAMP_DELIMITERS:
                 nxt = _DIGITS
-- 
2.43.0


From 2b7cf76021b9666dbb8578dd130197ef712dcbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 41/68] fix: reject underscores in the exponent of a number

---
 amazon/ion/reader_text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index af9f708..9240142 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -728,7 +728,8 @@ def _exponent_handler_factory(ion_type, exp_chars, parse_func, first_char=None):
             _illegal_character(c, ctx)
         return trans
     illegal = exp_chars + _SIGN
-    return _numeric_handler_factory(_DIGITS, transition, lambda c, ctx: c in exp_chars, illegal, parse_func,
+    # Unlike the digits of a coefficient, those of an exponent cannot be separated by underscores.
+    return _numeric_handler_factory(_DIGITS, transition, lambda c, ctx: c in exp_chars, illegal + _DIGITS, parse_func,
                                     illegal_at_end=illegal, ion_type=ion_type, first_char=first_char)
 
 
-- 
2.43.0


From 36d900c7aae0e7905699b860142724827cf31c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 42/68] fix: reject an escaped quote among the quotes that open
 a clob

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 9240142..ebda4a0 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1700,6 +1700,8 @@ def _lob_start_handler(c, ctx):
             ctx.set_ion_type(IonType.CLOB).set_unicode(quoted_text=True)
             yield ctx.immediate_transition(_short_string_handler(c, ctx))
         elif c == _SINGLE_QUOTE:
+            if _is_escaped(c):
+                _illegal_character(c, ctx)
             if not quotes:
                 ctx.set_ion_type(IonType.CLOB).set_unicode(quoted_text=True)
             quotes += 1
-- 
2.43.0


From b43399d2ab97922bf8059dee34f73e7e48a68daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 43/68] fix: distinguish bools, ints and other numbers in
 ion_equals when one operand is a native value

---
 amazon/ion/equivalence.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 13952a1..ede9ad1 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -91,7 +91,7 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
                 elif isinstance(a, IonPyFloat):
                     return _floats_eq(a, b)
                 else:
-                    return a == b
+                    return _other_scalars_eq(a, b)
             return False
     # Reaching this point means that neither operand has _IonNature.
     for a, b in ((a, b), (b, a)):  # Ensures that operand order does not matter.
@@ -107,7 +107,7 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
             return _decimals_eq(a, b)
         elif isinstance(a, float):
             return _floats_eq(a, b)
-    return a == b
+    return _other_scalars_eq(a, b)
 
 
 def _annotations_eq(a, b):
@@ -242,6 +242,18 @@ def _decimals_eq(a, b):
     return a.canonical().compare_total(b.canonical()) == 0
 
 
+def _is_bool(x):
+    return isinstance(x, bool) or getattr(x, 'ion_type', None) is IonType.BOOL
+
+
+def _other_scalars_eq(a, b):
+    if isinstance(a, six.integer_types) or isinstance(b, six.integer_types):
+        # In Python a bool is an int, and numbers of different types may be equal. Under the Ion data model, neither holds.
+        if not (isinstance(a, six.integer_types) and isinstance(b, six.integer_types)) or _is_bool(a) != _is_bool(b):
+            return False
+    return a == b
+
+
 def _is_float_negative_zero(x):
     return struct.pack('>d', x) == b'\x80\x00\x00\x00\x00\x00\x00\x00'
 
-- 
2.43.0


From c6dd8643cd8b22b9ca8c8be6f4d9a2c4b9734ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 44/68] fix: compare tuples as sequences of Ion values in
 ion_equals, and symbol tokens never

---
 amazon/ion/equivalence.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index ede9ad1..ed51c62 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -95,14 +95,15 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
             return False
     # Reaching this point means that neither operand has _IonNature.
     for a, b in ((a, b), (b, a)):  # Ensures that operand order does not matter.
-        if isinstance(a, list):
+        if isinstance(a, SymbolToken):
+            # SymbolToken is a tuple, but not a sequence of Ion values.
+            return _symbols_eq(a, b)
+        elif isinstance(a, (list, tuple)):
             return _sequences_eq(a, b, recursive_comparison_func)
         elif isinstance(a, dict):
             return _structs_eq(a, b, recursive_comparison_func)
         elif isinstance(a, datetime):
             return timestamp_comparison_func(a, b)
-        elif isinstance(a, SymbolToken):
-            return _symbols_eq(a, b)
         elif isinstance(a, Decimal):
             return _decimals_eq(a, b)
         elif isinstance(a, float):
@@ -116,7 +117,7 @@ def _annotations_eq(a, b):
 
 def _sequences_eq(a, b, comparison_func):
     assert isinstance(a, (list, tuple))
-    if not isinstance(b, (list, tuple)):
+    if not isinstance(b, (list, tuple)) or isinstance(b, SymbolToken):
         return False
     sequence_len = len(a)
     if sequence_len != len(b):
-- 
2.43.0


From 72d345383a7a79b88db57eb6cc5e7c3bc23f9528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 45/68] fix: compare all digits of the fractional seconds of
 timestamps in ion_equals, and take a missing precision for seconds

---
 amazon/ion/equivalence.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index ed51c62..ca734c7 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -162,6 +162,11 @@ def _structs_eq(a, b, comparison_func):
     return True
 
 
+def _timestamp_precision(ts):
+    # A timestamp without an explicit precision has SECOND precision.
+    return TimestampPrecision.SECOND if ts.precision is None else ts.precision
+
+
 def _timestamps_eq(a, b):
     """Compares two timestamp operands for equivalence under the Ion data model."""
     assert isinstance(a, datetime)
@@ -176,11 +181,13 @@ def _timestamps_eq(a, b):
         if isinstance(a, Timestamp):
             if isinstance(b, Timestamp):
                 # Both operands declare their precisions. They are only equivalent if their precisions are the same.
-                if a.precision is b.precision and a.fractional_precision is b.fractional_precision \
+                if _timestamp_precision(a) is _timestamp_precision(b) \
+                        and a.fractional_seconds.as_tuple().exponent == b.fractional_seconds.as_tuple().exponent \
                         and a.fractional_seconds == b.fractional_seconds:
                     break
                 return False
-            elif a.precision is not TimestampPrecision.SECOND or a.fractional_precision != MICROSECOND_PRECISION:
+            elif _timestamp_precision(a) is not TimestampPrecision.SECOND \
+                    or a.fractional_seconds.as_tuple().exponent != -MICROSECOND_PRECISION:
                 # Only one of the operands declares its precision. It is only equivalent to the other (a naive datetime)
                 # if it has full microseconds precision.
                 return False
-- 
2.43.0


From ff23249a0fbfeee9d8122c5fa73f155a3e0e557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 46/68] fix: compare instants beyond microseconds in ion_equals

---
 amazon/ion/equivalence.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index ca734c7..46509d7 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -194,6 +194,12 @@ def _timestamps_eq(a, b):
     return a == b
 
 
+def _fractional_seconds(ts):
+    if isinstance(ts, Timestamp):
+        return ts.fractional_seconds
+    return Decimal('0.%06d' % (ts.microsecond,))
+
+
 def _timestamp_instants_eq(a, b):
     """Compares two timestamp operands for point-in-time equivalence only."""
     assert isinstance(a, datetime)
@@ -201,12 +207,13 @@ def _timestamp_instants_eq(a, b):
         return False
     # datetime's __eq__ can't compare a None offset and a non-None offset. For these equivalence semantics, a None
     # offset (unknown local offset) is treated equivalently to a +00:00.
+    fractions_eq = _fractional_seconds(a) == _fractional_seconds(b)
     if a.tzinfo is None:
         a = a.replace(tzinfo=OffsetTZInfo())
     if b.tzinfo is None:
         b = b.replace(tzinfo=OffsetTZInfo())
-    # datetime's __eq__ implementation compares instants; offsets and precision need not be equal.
-    return a == b
+    # datetime's __eq__ implementation compares instants to the microsecond; offsets and precision need not be equal.
+    return a == b and fractions_eq
 
 
 def _symbols_eq(a, b):
-- 
2.43.0


From a0a0b0d4141f92cebbdf9e3dbb6fe39bb83ffc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 47/68] fix: compute the fractional seconds of a timestamp from
 its microseconds independently of the decimal context

---
 amazon/ion/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index b4fb76f..21d03ce 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -512,8 +512,10 @@ class Timestamp(datetime):
                 fractional_seconds = DECIMAL_ZERO
             else:
                 try:
-                    fractional_seconds = Decimal(datetime_microseconds).scaleb(-MICROSECOND_PRECISION)\
-                        .quantize(PRECISION_LIMIT_LOOKUP[fractional_precision], context=Context(traps=[Inexact]))
+                    # The context of the calling thread must not affect the result.
+                    context = Context(prec=28, traps=[Inexact])
+                    fractional_seconds = Decimal(datetime_microseconds).scaleb(-MICROSECOND_PRECISION, context)\
+                        .quantize(PRECISION_LIMIT_LOOKUP[fractional_precision], context=context)
                 except Inexact:
                     raise ValueError('microsecond value %d cannot be expressed exactly in %d digits.'
                                      % (datetime_microseconds, fractional_precision))
-- 
2.43.0


From 52b1e3d94a88080fc6251fb4311a6a228dd8b558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 48/68] fix: events are unequal exactly when they are not equal

---
 amazon/ion/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 21d03ce..c687162 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -168,6 +168,10 @@ class IonEvent(record(
             and self.depth == other.depth
         )
 
+    def __ne__(self, other):
+        # The underlying tuple would compare the components without the rules above.
+        return not self == other
+
     def derive_field_name(self, field_name):
         """Derives a new event from this one setting the ``field_name`` attribute.
 
-- 
2.43.0


From 2003e07a3b969c820a8e536716f8358a186fd9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 49/68] fix: events with decimals or zero floats that are
 different Ion values are not equal

---
 amazon/ion/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index c687162..613bab5 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -22,7 +22,7 @@ from __future__ import print_function
 from collections import MutableMapping, MutableSequence, OrderedDict
 from datetime import datetime, timedelta, tzinfo
 from decimal import Decimal, ROUND_FLOOR, Context, Inexact, localcontext
-from math import isnan
+from math import copysign, isnan
 
 import six
 
@@ -133,13 +133,21 @@ class IonEvent(record(
             if not isinstance(other.value, float):
                 return False
 
-            # Need to deal with NaN appropriately.
-            if self.value != other.value and not (isnan(self.value) and isnan(other.value)):
+            # Need to deal with NaN and the sign of zero appropriately.
+            if isnan(self.value) or isnan(other.value):
+                if not (isnan(self.value) and isnan(other.value)):
+                    return False
+            elif self.value != other.value or copysign(1, self.value) != copysign(1, other.value):
                 return False
         else:
             if self.value != other.value:
                 return False
 
+            # Decimals are different values in the Ion data model if their precision or sign of zero differs.
+            if isinstance(self.value, Decimal) and isinstance(other.value, Decimal) \
+                    and self.value.as_tuple() != other.value.as_tuple():
+                return False
+
             # Timestamp precision has additional requirements.
             if isinstance(self.value, Timestamp) or isinstance(other.value, Timestamp):
                 # Special case for timestamps to capture equivalence over precision.
-- 
2.43.0


From 9f058ba7411be5b53be367e15b190418284471f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 50/68] fix: a struct constructed from another one keeps
 repeated fields

---
 amazon/ion/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 613bab5..7975d1d 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -641,7 +641,7 @@ class Multimap(MutableMapping):
         self.__store = OrderedDict()
         if args is not None and len(args) > 0:
             for key, value in six.iteritems(args[0]):
-                self.__store[key] = MultimapValue(value)
+                self.add_item(key, value)
 
     def __getitem__(self, key):
         return self.__store[key][len(self.__store[key]) - 1]  # Return only one in order not to break clients
-- 
2.43.0


From 89ad4fdb3801714e7c03e78b3fc89a45ebdd198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 51/68] fix: a copy of a struct has its own fields

---
 amazon/ion/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 7975d1d..b12d4b0 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -643,6 +643,12 @@ class Multimap(MutableMapping):
             for key, value in six.iteritems(args[0]):
                 self.add_item(key, value)
 
+    def __copy__(self):
+        copied = type(self).__new__(type(self))
+        copied.__dict__.update(self.__dict__)
+        copied.__store = OrderedDict((key, MultimapValue(*values)) for key, values in six.iteritems(self.__store))
+        return copied
+
     def __getitem__(self, key):
         return self.__store[key][len(self.__store[key]) - 1]  # Return only one in order not to break clients
 
-- 
2.43.0


From a3670040c62034f5146de43802231dfa460948f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:38 +0000
Subject: [PATCH 52/68] fix: structs with different repeated fields are not
 equal

---
 amazon/ion/core.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index b12d4b0..3199ee1 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -19,7 +19,7 @@ from __future__ import absolute_import
 from __future__ import division
 from __future__ import print_function
 
-from collections import MutableMapping, MutableSequence, OrderedDict
+from collections import Mapping, MutableMapping, MutableSequence, OrderedDict
 from datetime import datetime, timedelta, tzinfo
 from decimal import Decimal, ROUND_FLOOR, Context, Inexact, localcontext
 from math import copysign, isnan
@@ -649,6 +649,22 @@ class Multimap(MutableMapping):
         copied.__store = OrderedDict((key, MultimapValue(*values)) for key, values in six.iteritems(self.__store))
         return copied
 
+    def __eq__(self, other):
+        if isinstance(other, Multimap):
+            # The fields are unordered, but the values of each are ordered.
+            return len(self.__store) == len(other.__store) and all(
+                key in other.__store and list(values) == list(other.__store[key])
+                for key, values in six.iteritems(self.__store))
+        if isinstance(other, Mapping) and len(self) != len(other):
+            # There are repeated fields, which the other mapping cannot have.
+            return False
+        return super(Multimap, self).__eq__(other)
+
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = None
+
     def __getitem__(self, key):
         return self.__store[key][len(self.__store[key]) - 1]  # Return only one in order not to break clients
 
-- 
2.43.0


From b9a175f02d8fb790b33a3743af0cae5eddbddea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:54 +0000
Subject: [PATCH 53/68] fix: assigning to an element of the values of a field
 replaces it

---
 amazon/ion/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 3199ee1..fab5ddb 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -711,7 +711,7 @@ class MultimapValue(MutableSequence):
             self.__store = []
 
     def insert(self, index, value):
-        self.__setitem__(index, value)
+        self.__store.insert(index, value)
 
     def __len__(self):
         return len(self.__store)
@@ -720,7 +720,7 @@ class MultimapValue(MutableSequence):
         return self.__store[index]
 
     def __setitem__(self, index, value):
-        self.__store.insert(index, value)
+        self.__store[index] = value
 
     def __delitem__(self, index):
         del self.__store[index]
-- 
2.43.0


From 11fe9c01a4316c1f0424291b5719c68395068615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:14 +0000
Subject: [PATCH 54/68] fix: write native values of struct fields with unknown
 text

---
 amazon/ion/simpleion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index c88150b..9e38c06 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -35,7 +35,7 @@ from .reader_binary import binary_reader
 from .reader_managed import managed_reader
 from .simple_types import IonPyList, IonPyDict, IonPyNull, IonPyBool, IonPyInt, IonPyFloat, IonPyDecimal, \
     IonPyTimestamp, IonPyText, IonPyBytes, IonPySymbol, is_null
-from .symbols import SymbolToken
+from .symbols import SymbolToken, SYMBOL_ZERO_TOKEN
 from .writer import blocking_writer
 from .writer_binary import binary_writer
 
@@ -209,6 +209,9 @@ def _dump(obj, writer, from_type, field=None, in_struct=False, depth=0):
     except AttributeError:
         ion_type = _ion_type(obj, from_type)
         ion_nature = False
+    if in_struct and field is None:
+        # A field name with unknown text, as in loaded structs.
+        field = SYMBOL_ZERO_TOKEN
     if not null and ion_type.is_container:
         if ion_nature:
             event = obj.to_event(IonEventType.CONTAINER_START, field_name=field, in_struct=in_struct, depth=depth)
-- 
2.43.0


From f0bce94619701f3adf895e7cdba7067f47cba38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 55/68] fix: load recognizes binary data in files that return
 short reads

---
 amazon/ion/simpleion.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index 9e38c06..7044861 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -359,7 +359,13 @@ def load(fp, catalog=None, single_value=True, encoding='utf-8', cls=None, object
         raw_reader = text_reader(is_unicode=True)
     else:
         start = fp.tell()
-        maybe_ivm = fp.read(4)
+        maybe_ivm = fp.read(len(_IVM))
+        while 0 < len(maybe_ivm) < len(_IVM):
+            # A raw file may return less than asked for before its end.
+            data = fp.read(len(_IVM) - len(maybe_ivm))
+            if not data:
+                break
+            maybe_ivm += data
         fp.seek(start)
         if maybe_ivm == _IVM:
             raw_reader = binary_reader()
-- 
2.43.0


From 96bf5ac89f4030f49db58c4f9dad993b3e5c4cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 56/68] fix: text writer writes numbers whose class has a
 representation of its own as numbers

---
 amazon/ion/writer_text.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 61c8cc3..7ec5466 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -87,7 +87,8 @@ def _serialize_scalar_from_string_representation_factory(type_name, types, str_f
 
 
 _serialize_int = _serialize_scalar_from_string_representation_factory(
-    'int', six.integer_types
+    'int', six.integer_types,
+    str_func=lambda val: str(int(val))  # Subclasses, such as bool and IntEnum, may have another representation.
 )
 
 
@@ -103,7 +104,7 @@ def _float_str(val):
             return '+inf'
         else:
             return '-inf'
-    text = repr(val)
+    text = float.__repr__(val)  # Subclasses may have another representation.
     if _EXPONENT_PAT.search(text) is None:
         text += 'e0'
     return text
@@ -118,7 +119,7 @@ _serialize_float = _serialize_scalar_from_string_representation_factory(
 def _decimal_str(val):
     if not val.is_finite():
         raise ValueError('Ion decimals cannot represent %s.' % (val,))
-    text = str(val)
+    text = Decimal.__str__(val)  # Subclasses may have another representation.
     new_text = _EXPONENT_PAT.sub('d', text)
     if text == new_text and text.find('.') == -1:
         new_text += 'd0'
-- 
2.43.0


From aee37c738b8223c7f521c44d92291481a2fc10a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 57/68] fix: writers refuse bool and lob values of other types

---
 amazon/ion/writer.py            | 7 +++++++
 amazon/ion/writer_binary_raw.py | 4 +++-
 amazon/ion/writer_text.py       | 5 ++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/writer.py b/amazon/ion/writer.py
index d290dec..161da52 100644
--- a/amazon/ion/writer.py
+++ b/amazon/ion/writer.py
@@ -55,6 +55,13 @@ def validate_scalar_value(value, expected_types):
         raise TypeError('Expected type %s, found %s.' % (expected_types, type(value)))
 
 
+def validate_lob_value(value):
+    try:
+        memoryview(value)
+    except TypeError:
+        raise TypeError('Expected bytes, found %s.' % (type(value),))
+
+
 # To be used when an event of type IonType.NULL is encountered, but its value is not None.
 def illegal_state_null(ion_event):
     assert ion_event.ion_type is IonType.NULL
diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index 6f54214..1315afb 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -34,7 +34,7 @@ from .core import IonEventType, IonType, DataEvent, Transition, TimestampPrecisi
 from .util import coroutine, total_seconds, Enum
 from .writer import NOOP_WRITER_EVENT, WriteEventType, \
                     writer_trampoline, partial_transition, serialize_scalar, \
-                    validate_scalar_value, illegal_state_null
+                    validate_scalar_value, validate_lob_value, illegal_state_null
 from .writer_binary_raw_fields import _write_varuint, _write_uint, _write_varint, _write_int
 
 
@@ -105,6 +105,7 @@ _BOOL_FALSE = bytearray([_TypeIds.BOOL_FALSE])
 
 
 def _serialize_bool(ion_event):
+    validate_scalar_value(ion_event.value, six.integer_types)  # bool and IonPyBool are integers.
     if ion_event.value:
         return _BOOL_TRUE
     else:
@@ -231,6 +232,7 @@ def _serialize_symbol(ion_event):
 def _serialize_lob_value(event, tid):
     buf = bytearray()
     value = event.value
+    validate_lob_value(value)
     _write_length(buf, len(value), tid)
     buf.extend(value)
     return buf
diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 7ec5466..3755107 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -38,7 +38,7 @@ from .core import DataEvent, Transition, IonEventType, IonType, TIMESTAMP_PRECIS
     _ZERO_DELTA, TIMESTAMP_FRACTION_PRECISION_FIELD, MICROSECOND_PRECISION, TIMESTAMP_FRACTIONAL_SECONDS_FIELD, \
     Timestamp, DECIMAL_ZERO
 from .writer import partial_transition, writer_trampoline, serialize_scalar, validate_scalar_value, \
-    illegal_state_null, NOOP_WRITER_EVENT
+    validate_lob_value, illegal_state_null, NOOP_WRITER_EVENT
 from .writer import WriteEventType
 
 _IVM_WRITER_EVENT = DataEvent(WriteEventType.COMPLETE, symbols.TEXT_ION_1_0.encode())
@@ -61,6 +61,7 @@ _NULL_TYPE_NAMES = [
 
 
 def _serialize_bool(ion_event):
+    validate_scalar_value(ion_event.value, six.integer_types)  # bool and IonPyBool are integers.
     if ion_event.value:
         return b'true'
     else:
@@ -290,11 +291,13 @@ _LOB_END = b'}}'
 
 def _serialize_clob(ion_event):
     value = ion_event.value
+    validate_lob_value(value)
     return _bytes_text(six.iterbytes(value), _DOUBLE_QUOTE, prefix=_LOB_START, suffix=_LOB_END)
 
 
 def _serialize_blob(ion_event):
     value = ion_event.value
+    validate_lob_value(value)
     return _LOB_START + base64.b64encode(value) + _LOB_END
 
 
-- 
2.43.0


From 15856ff82c0f89bd15e785fc13a4af6ec37a1eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 58/68] fix: binary writer refuses symbols of other types with
 a TypeError

---
 amazon/ion/writer_binary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/writer_binary.py b/amazon/ion/writer_binary.py
index 0e8a450..27e29ae 100644
--- a/amazon/ion/writer_binary.py
+++ b/amazon/ion/writer_binary.py
@@ -111,7 +111,8 @@ def _symbol_table_coroutine(writer_buffer, imports):
             if symbol_text is not None:
                 key = symbol_text
         except AttributeError:
-            assert isinstance(symbol, six.text_type)
+            if not isinstance(symbol, six.text_type):
+                raise TypeError('Expected symbol text or a symbol token, found %s.' % (type(symbol),))
             key = symbol
             symbol_text = symbol
         token = local_symbols.get(key)
-- 
2.43.0


From d88579c4c611de23b375aaa25f447b8b1012e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 59/68] fix: write timestamps whose offset is not a whole
 number of minutes as legal text

---
 amazon/ion/writer_text.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 3755107..8202385 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -26,7 +26,7 @@ from functools import partial
 
 import six
 
-from datetime import datetime
+from datetime import datetime, timedelta
 from decimal import Decimal
 from io import BytesIO
 
@@ -36,7 +36,7 @@ from . import symbols
 from .util import coroutine, unicode_iter
 from .core import DataEvent, Transition, IonEventType, IonType, TIMESTAMP_PRECISION_FIELD, TimestampPrecision, \
     _ZERO_DELTA, TIMESTAMP_FRACTION_PRECISION_FIELD, MICROSECOND_PRECISION, TIMESTAMP_FRACTIONAL_SECONDS_FIELD, \
-    Timestamp, DECIMAL_ZERO
+    Timestamp, DECIMAL_ZERO, OffsetTZInfo
 from .writer import partial_transition, writer_trampoline, serialize_scalar, validate_scalar_value, \
     validate_lob_value, illegal_state_null, NOOP_WRITER_EVENT
 from .writer import WriteEventType
@@ -133,6 +133,15 @@ _serialize_decimal = _serialize_scalar_from_string_representation_factory(
 )
 
 
+def _whole_minute_offset(dt):
+    offset = dt.utcoffset()
+    if offset is None or offset.seconds % 60 == 0 and offset.microseconds == 0:
+        return dt
+    # Ion offsets are whole minutes. As in binary, the instant is kept and the offset is rounded down.
+    excess = timedelta(seconds=offset.seconds % 60, microseconds=offset.microseconds)
+    return (dt.replace(tzinfo=None) - excess).replace(tzinfo=OffsetTZInfo(offset - excess))
+
+
 def _bytes_utc_offset(dt):
     offset = dt.utcoffset()
     if offset is None:
@@ -149,6 +158,8 @@ def _bytes_datetime(dt):
     precision = getattr(original_dt, TIMESTAMP_PRECISION_FIELD, TimestampPrecision.SECOND)
     if precision is None:
         precision = TimestampPrecision.SECOND
+    if precision.includes_minute:
+        dt = _whole_minute_offset(dt)
     if dt.year < 1900:
         # In some Python interpreter versions, strftime inexplicably does not support pre-1900 years.
         # This unfortunate ugliness compensates for that.
-- 
2.43.0


From 41fad7f84146211bcb2e11e5fcc5cd09e40f74b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:00 +0000
Subject: [PATCH 60/68] fix: write the offset of timestamps before 1900 in text
 as it was then

---
 amazon/ion/writer_text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 8202385..b23260b 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -165,7 +165,9 @@ def _bytes_datetime(dt):
         # This unfortunate ugliness compensates for that.
         year = str(dt.year)
         year = ('0' * (4 - len(year))) + year
-        dt = dt.replace(year=2008)  # Note: this fake year must be a leap year.
+        # Note: this fake year must be a leap year. The offset may be another one in that year.
+        offset = dt.utcoffset()
+        dt = dt.replace(year=2008, tzinfo=None if offset is None else OffsetTZInfo(offset))
     else:
         year = dt.strftime('%Y')
     tz_string = year
-- 
2.43.0


From 522dbee53f75b9024892bc96593634c1552d33f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:09 +0000
Subject: [PATCH 61/68] fix: write timestamps whose time zone has no offset in
 binary, as in text

---
 amazon/ion/writer_binary_raw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index 1315afb..0343756 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -250,12 +250,12 @@ def _serialize_timestamp(ion_event):
         precision = TimestampPrecision.SECOND
     validate_scalar_value(dt, datetime)
     value_buf = bytearray()
-    if dt.tzinfo is None:
+    offset = dt.utcoffset()
+    if offset is None:
         value_buf.append(_VARINT_NEG_ZERO)  # This signifies an unknown local offset.
         length = 1
     else:
         # Normalize to UTC and write the offset field.
-        offset = dt.utcoffset()
         dt -= offset
         length = _write_varint(value_buf, int(total_seconds(offset) // 60))
     length += _write_varuint(value_buf, dt.year)
-- 
2.43.0


From a415dfbc9fd9673f3e9723a3196a8c658b0ddd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 62/68] fix: arithmetic on timestamps gives complete values

---
 amazon/ion/core.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index fab5ddb..967055a 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -554,6 +554,27 @@ class Timestamp(datetime):
         }
         return _restore_timestamp, (type(self), args, kwargs), getattr(self, '__dict__', None)
 
+    def _datetime(self):
+        return datetime(self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond,
+                        self.tzinfo)
+
+    # The following operations are datetime's; their results have no precision, and are plain datetimes. The
+    # inherited operations may return instances of this class that lack its attributes.
+
+    def __add__(self, other):
+        return self._datetime() + other
+
+    __radd__ = __add__
+
+    def __sub__(self, other):
+        return self._datetime() - other
+
+    def replace(self, *args, **kwargs):
+        return self._datetime().replace(*args, **kwargs)
+
+    def astimezone(self, *args, **kwargs):
+        return self._datetime().astimezone(*args, **kwargs)
+
     def __repr__(self):
         return 'Timestamp(%04d-%02d-%02dT%02d:%02d:%02d.%06d, %r, %r, %s=%s)' % \
                (self.year, self.month, self.day,
-- 
2.43.0


From 0d15faf44c8eecdf824580985d74651a6ef97567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:52 +0000
Subject: [PATCH 63/68] fix: keep the fold of timestamps, on which their offset
 may depend

---
 amazon/ion/core.py         | 8 +++++++-
 amazon/ion/simple_types.py | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 967055a..c2fedcf 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -407,6 +407,11 @@ def _restore_timestamp(cls, args, kwargs):
     return cls(*args, **kwargs)
 
 
+def _fold_argument(dt):
+    # Only datetimes that are ambiguous in their time zone have a fold, and no datetime of some Python versions.
+    return {'fold': dt.fold} if getattr(dt, 'fold', 0) else {}
+
+
 class Timestamp(datetime):
     """Sub-class of :class:`datetime` that supports a precision field; a ``fractional_precision``
         field that specifies the  precision of the``microseconds`` field in :class:`datetime`;
@@ -552,11 +557,12 @@ class Timestamp(datetime):
             TIMESTAMP_PRECISION_FIELD: getattr(self, TIMESTAMP_PRECISION_FIELD),
             TIMESTAMP_FRACTIONAL_SECONDS_FIELD: getattr(self, TIMESTAMP_FRACTIONAL_SECONDS_FIELD)
         }
+        kwargs.update(_fold_argument(self))
         return _restore_timestamp, (type(self), args, kwargs), getattr(self, '__dict__', None)
 
     def _datetime(self):
         return datetime(self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond,
-                        self.tzinfo)
+                        self.tzinfo, **_fold_argument(self))
 
     # The following operations are datetime's; their results have no precision, and are plain datetimes. The
     # inherited operations may return instances of this class that lack its attributes.
diff --git a/amazon/ion/simple_types.py b/amazon/ion/simple_types.py
index c41eb0a..d7b403d 100644
--- a/amazon/ion/simple_types.py
+++ b/amazon/ion/simple_types.py
@@ -29,7 +29,7 @@ from collections import MutableMapping
 import six
 
 from amazon.ion.symbols import SymbolToken
-from .core import TIMESTAMP_PRECISION_FIELD
+from .core import TIMESTAMP_PRECISION_FIELD, _fold_argument
 from .core import Multimap, Timestamp, IonEvent, IonType, TIMESTAMP_FRACTION_PRECISION_FIELD, TimestampPrecision, \
     MICROSECOND_PRECISION, TIMESTAMP_FRACTIONAL_SECONDS_FIELD
 
@@ -198,6 +198,7 @@ class IonPyTimestamp(Timestamp, _IonNature):
         else:
             args = (ts.year, ts.month, ts.day, ts.hour, ts.minute, ts.second, ts.microsecond, ts.tzinfo)
             kwargs = {TIMESTAMP_PRECISION_FIELD: TimestampPrecision.SECOND}
+        kwargs.update(_fold_argument(ts))
         return args, kwargs
 
 
-- 
2.43.0


From 33e56367bf50843debb04a0b1f835a0ea29835fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 64/68] fix: reject base64 digits after the padding of a blob
 and whitespace

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index ebda4a0..d8d45a6 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1765,7 +1765,7 @@ def _blob_end_handler_factory():
     def action(c, ctx, prev, res, is_first):
         num_digits, num_pads = expand_res(res)
         if c in _BASE64_DIGITS:
-            if prev == _CLOSE_BRACE or prev == _BASE64_PAD:
+            if prev == _CLOSE_BRACE or num_pads > 0:
                 _illegal_character(c, ctx.set_ion_type(IonType.BLOB))
             num_digits += 1
         elif c == _BASE64_PAD:
-- 
2.43.0


From 8af6ff827c23a8b227d6cc394578ebb6dea5f0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:42 +0000
Subject: [PATCH 65/68] fix: text that ends right after an open brace or a
 minus sign is refused with IonException

---
 amazon/ion/reader_text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index d8d45a6..6fa5e22 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -591,6 +591,8 @@ def _number_negative_start_handler(c, ctx):
     ctx.set_ion_type(IonType.INT)
     ctx.value.append(c)
     c, _ = yield
+    if BufferQueue.is_eof(c):
+        _illegal_character(c, ctx, 'Unexpected EOF.')
     yield ctx.immediate_transition(_NEGATIVE_TABLE[c](c, ctx))
 
 
@@ -1662,6 +1664,8 @@ def _struct_or_lob_handler(c, ctx):
     """Handles tokens that begin with an open brace."""
     assert c == _OPEN_BRACE
     c, self = yield
+    if BufferQueue.is_eof(c):
+        _illegal_character(c, ctx, 'Unexpected EOF.')
     yield ctx.immediate_transition(_STRUCT_OR_LOB_TABLE[c](c, ctx))
 
 
-- 
2.43.0


From 4e68430f1f49522657bc915529242908fa4021d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:00 +0000
Subject: [PATCH 66/68] fix: text that ends in a slash after a long string is
 refused with IonException

---
 amazon/ion/reader_text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 6fa5e22..353f47b 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1038,7 +1038,8 @@ def _comment_handler(c, ctx, whence):
             ctx.set_line_comment(False)
         block_comment = True
     else:
-        _illegal_character(c, ctx, 'Illegal character sequence "/%s".' % (_chr(c),))
+        _illegal_character(c, ctx, 'Illegal character sequence "/%s".'
+                           % ('' if BufferQueue.is_eof(c) else _chr(c),))
     done = False
     prev = None
     trans = ctx.immediate_transition(self)
-- 
2.43.0


From 9845dbb4ae31d784688319440d681816ff6324d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:20 +0000
Subject: [PATCH 67/68] fix: a field name that is a symbol identifier without a
 colon is refused with IonException

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 353f47b..412fde8 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2061,7 +2061,7 @@ def _container_handler(c, ctx):
                 else:
                     if is_field_name:
                         _illegal_character(c, child_context, 'Illegal character after field name %s.'
-                                           % child_context.pending_symbol)
+                                           % (child_context.pending_symbol,))
                     # It's a symbol value delimited by something other than a comma (i.e. whitespace or comment)
                     yield symbol_value_event()
                     child_context = None
-- 
2.43.0


From b8d99b12e7f49fb05f12d2ad1aa211c01fc9fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:37 +0000
Subject: [PATCH 68/68] fix: a blob that starts with one or two single quotes
 is refused with IonException

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 412fde8..4a86e09 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1713,6 +1713,8 @@ def _lob_start_handler(c, ctx):
             if quotes == 3:
                 yield ctx.immediate_transition(_long_string_handler(c, ctx))
         else:
+            if quotes > 0:
+                _illegal_character(c, ctx)
             yield ctx.immediate_transition(_blob_end_handler(c, ctx))
         c, _ = yield trans
 
-- 
2.43.0

