From dff284e7e31790b46a6e0e7dcfd0643c7a04942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 01/49] fix: write a Timestamp without precision as text
 (SECOND, as in binary)

---
 amazon/ion/writer_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index ce26441..1328403 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -143,6 +143,8 @@ def _bytes_utc_offset(dt):
 def _bytes_datetime(dt):
     original_dt = dt
     precision = getattr(original_dt, TIMESTAMP_PRECISION_FIELD, TimestampPrecision.SECOND)
+    if precision is None:
+        precision = TimestampPrecision.SECOND
     if dt.year < 1900:
         # In some Python interpreter versions, strftime inexplicably does not support pre-1900 years.
         # This unfortunate ugliness compensates for that.
-- 
2.43.0


From 8cb4eec720b1ce6a1dfcf74e94baee98d93eed62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 02/49] fix: quote symbols whose text looks like a symbol
 identifier or a version marker

---
 amazon/ion/writer_text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 1328403..28e978d 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -250,9 +250,12 @@ _DOUBLE_QUOTE = b'"'
 # all typed nulls (such as null.int) and the +inf, and -inf keywords are covered by this regex
 _UNQUOTED_SYMBOL_REGEX = re.compile(r'\A[a-zA-Z$_][a-zA-Z0-9$_]*\Z')
 _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES = set(['nan', 'null', 'false', 'true'])
+# Unquoted, these would be read as symbol identifiers ($10) or version markers ($ion_1_0).
+_RESERVED_SYMBOL_REGEX = re.compile(r'\A\$(?:[0-9]+|ion_[0-9]+_[0-9]+)\Z')
 
 def _symbol_needs_quotes(text):
-    return text in _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES or _UNQUOTED_SYMBOL_REGEX.search(text) is None
+    return text in _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES or _UNQUOTED_SYMBOL_REGEX.search(text) is None \
+        or _RESERVED_SYMBOL_REGEX.search(text) is not None
 
 def _serialize_symbol_value(value, suffix=b''):
     # TODO Support not quoting operators in s-expressions: http://amzn.github.io/ion-docs/docs/symbols.html
-- 
2.43.0


From 13837b026168b605aaa3397a4a211bc694d73896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 03/49] fix: intern the empty field name in the binary writer

---
 amazon/ion/writer_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/writer_binary.py b/amazon/ion/writer_binary.py
index 36cb17e..0e8a450 100644
--- a/amazon/ion/writer_binary.py
+++ b/amazon/ion/writer_binary.py
@@ -168,7 +168,7 @@ def _managed_binary_writer_coroutine(imports):
     def intern_symbols(event):
         field_name = event.field_name
         annotations = event.annotations
-        if field_name:
+        if field_name is not None:
             event = event.derive_field_name(intern_symbol(field_name))
         if annotations:
             event = event.derive_annotations(
-- 
2.43.0


From 43e0b5d7f91110da2da6b3ea0736e01f4d4e70a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 04/49] fix: refuse non-finite decimals in the text writer
 instead of writing a symbol

---
 amazon/ion/writer_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 28e978d..2577d91 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -116,6 +116,8 @@ _serialize_float = _serialize_scalar_from_string_representation_factory(
 
 # TODO Make this cleaner.
 def _decimal_str(val):
+    if not val.is_finite():
+        raise ValueError('Cannot represent %s as an Ion decimal.' % (val,))
     text = str(val)
     new_text = _EXPONENT_PAT.sub('d', text)
     if text == new_text and text.find('.') == -1:
-- 
2.43.0


From c12f0c03b0b9f9a4035cb17364cf58fa207fb562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 05/49] fix: keep fractional seconds exact beyond the precision
 of the decimal context

---
 amazon/ion/core.py              | 3 ++-
 amazon/ion/reader_text.py       | 3 ++-
 amazon/ion/writer_binary_raw.py | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 1371729..b80b77e 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -497,7 +497,8 @@ class Timestamp(datetime):
                 fractional_seconds = DECIMAL_ZERO
             fractional_precision = min(-fractional_seconds_exponent, MICROSECOND_PRECISION)
             # Scale to microseconds and truncate to an integer.
-            args = replace_microsecond(int(fractional_seconds * BASE_TEN_MICROSECOND_PRECISION_EXPONENTIATION))
+            sign, digits, exponent = fractional_seconds.as_tuple()
+            args = replace_microsecond(int(Decimal((sign, digits, exponent + MICROSECOND_PRECISION))))
         elif datetime_microseconds is not None:
             if fractional_precision is None:
                 fractional_precision = MICROSECOND_PRECISION
diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index dcb8c50..c7af4b5 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -925,7 +925,8 @@ def _parse_timestamp(tokens):
 
             fraction = tokens[_TimestampState.FRACTIONAL]
             if fraction is not None:
-                fraction = Decimal(int(fraction)).scaleb(-1 * len(fraction))
+                # Exact, whatever the precision of the decimal context.
+                fraction = Decimal((0, tuple(int(digit) for digit in str(int(fraction))), -1 * len(fraction)))
         return timestamp(
             year, month, day,
             hour, minute, second, None,
diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index a153687..c5d25dd 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -172,7 +172,7 @@ def _write_decimal_value(buf, exponent, coefficient, sign=0):
 
 def _write_timestamp_fractional_seconds(buf, value):
     sign, digits, exponent = value.as_tuple()
-    coefficient = int(value.scaleb(-exponent).to_integral_value())
+    coefficient = int(Decimal((sign, digits, 0)))  # Exact, whatever the precision of the decimal context.
     if coefficient == 0 and exponent >= 0:
         length = 0
     else:
-- 
2.43.0


From a4828cd95e1481965e481f72ee8fe31b94302630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 06/49] fix: read and write binary decimals whatever the
 exponent limits of the decimal context

---
 amazon/ion/reader_binary.py     | 4 +++-
 amazon/ion/writer_binary_raw.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index b515acd..89340fd 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -20,7 +20,7 @@ from __future__ import print_function
 import six
 
 from datetime import timedelta
-from decimal import Decimal, localcontext
+from decimal import Decimal, MAX_EMAX, MIN_EMIN, localcontext
 from functools import partial
 from io import BytesIO
 from struct import unpack
@@ -199,6 +199,8 @@ def _parse_decimal(buf):
             # Adjusting precision for taking into account arbitrarily
             # large/small numbers
             context.prec = len(str(coefficient))
+            context.Emax = MAX_EMAX
+            context.Emin = MIN_EMIN
             value = Decimal(coefficient).scaleb(exponent)
 
     return value
diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index c5d25dd..97c522c 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -21,7 +21,7 @@ from __future__ import print_function
 
 
 from datetime import datetime
-from decimal import Decimal, localcontext
+from decimal import Decimal, MAX_EMAX, MIN_EMIN, localcontext
 from functools import partial
 
 import six
@@ -189,6 +189,8 @@ def _serialize_decimal(ion_event):
         # Adjusting precision for taking into account arbitrarily large/small
         # numbers
         context.prec = len(digits)
+        context.Emax = MAX_EMAX
+        context.Emin = MIN_EMIN
         coefficient = int(value.scaleb(-exponent).to_integral_value())
     if not sign and not exponent and not coefficient:
         # The value is 0d0; other forms of zero will fall through.
-- 
2.43.0


From 8c867ee64e9ea95c9ac17d92ad2045dee6bfd52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 07/49] fix: accept a null symbol as imports of a local symbol
 table

---
 amazon/ion/reader_managed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index a6ef05a..2d34141 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -242,6 +242,7 @@ def _local_symbol_table_handler(ctx):
                 ion_event, _ = yield Transition(SKIP_EVENT, self)
         elif ion_type == IonType.SYMBOL \
                 and field_name == TEXT_IMPORTS \
+                and ion_event.value is not None \
                 and ctx.resolve(ion_event.value).text == TEXT_ION_SYMBOL_TABLE:
             if ctx.symbol_table.table_type.is_system:
                 # Force the imports to nothing (system tables import implicitly).
-- 
2.43.0


From 51b77975abda04c1b7d6a324be9cba3cb7b06aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 08/49] fix: give non-string elements of a symbols list a
 symbol identifier without text

---
 amazon/ion/reader_managed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index 2d34141..9e39856 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -141,6 +141,9 @@ def _symbols_handler(symbols, whence):
         if ion_type is IonType.STRING:
             # Add the potentially null text.
             symbols.append(ion_event.value)
+        else:
+            # Any other element defines a symbol with unknown text.
+            symbols.append(None)
 
         ion_event, _ = yield Transition(NEXT_EVENT, self)
 
-- 
2.43.0


From ebd726dd65e2bbc9c229734e3f8cc99a63b7d38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 09/49] fix: compare repeated struct fields as a multiset

---
 amazon/ion/equivalence.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index ac733dd..114ec55 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -148,8 +148,14 @@ def _structs_eq(a, b, comparison_func):
                 values_b = b.get_all_values(key)
                 if len(values_a) != len(values_b):
                     return False
+                unmatched_b = list(values_b)
                 for value_a in values_a:
-                    if not any(comparison_func(value_a, value_b) for value_b in values_b):
+                    for i, value_b in enumerate(unmatched_b):
+                        if comparison_func(value_a, value_b):
+                            # Each value matches one other only: repeated fields are a multiset.
+                            del unmatched_b[i]
+                            break
+                    else:
                         return False
             else:
                 if not comparison_func(a[key], b[key]):
-- 
2.43.0


From 2b9ff99ddc06d8977e4bde3e7629e0432335028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 10/49] fix: keep repeated keys when a Multimap is constructed
 from another

---
 amazon/ion/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index b80b77e..570fb1a 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -613,7 +613,7 @@ class Multimap(MutableMapping):
         self.__store = OrderedDict()
         if args is not None and len(args) > 0:
             for key, value in six.iteritems(args[0]):
-                self.__store[key] = MultimapValue(value)
+                self.add_item(key, value)
 
     def __getitem__(self, key):
         return self.__store[key][len(self.__store[key]) - 1]  # Return only one in order not to break clients
-- 
2.43.0


From ae2b3e6921cbcc02d140edea47d83f176809711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 11/49] fix: keep the identity of enumeration members in deep
 copies

---
 amazon/ion/util.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amazon/ion/util.py b/amazon/ion/util.py
index 475a5d7..089bb0d 100644
--- a/amazon/ion/util.py
+++ b/amazon/ion/util.py
@@ -94,6 +94,13 @@ class Enum(int):
     def __getnewargs__(self):
         return (self.name, self.value)
 
+    def __copy__(self):
+        return self
+
+    def __deepcopy__(self, memo):
+        # Members are compared by identity.
+        return self
+
     def __str__(self):
         return '<%s.%s: %s>' % (type(self).__name__, self.name, self.value)
     __repr__ = __str__
-- 
2.43.0


From 9bec857319b9b68c15ddea365b90d51cb32245cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 12/49] fix: never treat ints, bools and other numbers as equal
 in ion_equals

---
 amazon/ion/equivalence.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 114ec55..027fbe1 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -28,7 +28,7 @@ import six
 
 from amazon.ion.core import IonType, Timestamp, TimestampPrecision, MICROSECOND_PRECISION, OffsetTZInfo, Multimap
 from amazon.ion.simple_types import _IonNature, IonPyList, IonPyDict, IonPyTimestamp, IonPyNull, IonPySymbol, \
-    IonPyText, IonPyDecimal, IonPyFloat
+    IonPyText, IonPyDecimal, IonPyFloat, IonPyInt
 from amazon.ion.symbols import SymbolToken
 
 
@@ -90,6 +90,8 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
                     return _decimals_eq(a, b)
                 elif isinstance(a, IonPyFloat):
                     return _floats_eq(a, b)
+                elif isinstance(a, IonPyInt):
+                    return _ints_eq(a, b)
                 else:
                     return a == b
             return False
@@ -107,6 +109,8 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
             return _decimals_eq(a, b)
         elif isinstance(a, float):
             return _floats_eq(a, b)
+        elif isinstance(a, six.integer_types):
+            return _ints_eq(a, b)
     return a == b
 
 
@@ -245,6 +249,18 @@ def _decimals_eq(a, b):
     return a.canonical().compare_total(b.canonical()) == 0
 
 
+def _is_bool(x):
+    return isinstance(x, bool) or getattr(x, 'ion_type', None) is IonType.BOOL
+
+
+def _ints_eq(a, b):
+    """Compares operands that represent ints or bools, which are never equivalent to each other."""
+    assert isinstance(a, six.integer_types)
+    if not isinstance(b, six.integer_types):
+        return False
+    return _is_bool(a) == _is_bool(b) and a == b
+
+
 def _is_float_negative_zero(x):
     return struct.pack('>d', x) == b'\x80\x00\x00\x00\x00\x00\x00\x00'
 
-- 
2.43.0


From 6cb2e264ae7348b4abc61db6748ea49686e6c159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 13/49] fix: keep precision and fractional seconds in copies of
 timestamps

---
 amazon/ion/core.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 570fb1a..550726d 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -391,6 +391,10 @@ PRECISION_LIMIT_LOOKUP = (
 DATETIME_CONSTRUCTOR_MICROSECOND_ARGUMENT_INDEX = 6
 
 
+def _construct_timestamp(cls, args, kwargs):
+    return cls(*args, **kwargs)
+
+
 class Timestamp(datetime):
     """Sub-class of :class:`datetime` that supports a precision field; a ``fractional_precision``
         field that specifies the  precision of the``microseconds`` field in :class:`datetime`;
@@ -526,6 +530,15 @@ class Timestamp(datetime):
 
         return instance
 
+    def __reduce_ex__(self, protocol):
+        # The state that datetime keeps includes neither the precision nor the fractional seconds.
+        args = (self.year, self.month, self.day, self.hour, self.minute, self.second, None, self.tzinfo)
+        kwargs = {
+            TIMESTAMP_PRECISION_FIELD: self.precision,
+            TIMESTAMP_FRACTIONAL_SECONDS_FIELD: self.fractional_seconds
+        }
+        return _construct_timestamp, (type(self), args, kwargs), getattr(self, '__dict__', None)
+
     def __repr__(self):
         return 'Timestamp(%04d-%02d-%02dT%02d:%02d:%02d.%06d, %r, %r, %s=%s)' % \
                (self.year, self.month, self.day,
-- 
2.43.0


From efe3fb05b15c3bdc5113c21b9cf0076930e485a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 14/49] fix: keep type and annotations in copies of
 IonPyDecimal

---
 amazon/ion/simple_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/simple_types.py b/amazon/ion/simple_types.py
index 9db902d..b9c8198 100644
--- a/amazon/ion/simple_types.py
+++ b/amazon/ion/simple_types.py
@@ -152,6 +152,9 @@ else:
 IonPyBool = IonPyInt
 IonPyFloat = _ion_type_for('IonPyFloat', float)
 IonPyDecimal = _ion_type_for('IonPyDecimal', Decimal)
+# Decimal copies the number only.
+IonPyDecimal.__copy__ = lambda self: self._copy()
+IonPyDecimal.__deepcopy__ = lambda self, memo: self._copy()
 IonPyText = _ion_type_for('IonPyText', six.text_type)
 IonPyBytes = _ion_type_for('IonPyBytes', six.binary_type)
 
-- 
2.43.0


From bcf240e088bf8dcdd8b70721f995da89721fc08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 15/49] fix: read octets of Ion text as UTF-8 in load and loads

---
 amazon/ion/simpleion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index 6aab1ca..74fff0b 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -19,6 +19,7 @@ from __future__ import absolute_import
 from __future__ import division
 from __future__ import print_function
 
+from codecs import getreader
 from datetime import datetime
 from decimal import Decimal
 from io import BytesIO, TextIOBase
@@ -360,7 +361,9 @@ def load(fp, catalog=None, single_value=True, encoding='utf-8', cls=None, object
         if maybe_ivm == _IVM:
             raw_reader = binary_reader()
         else:
-            raw_reader = text_reader()
+            # Text is UTF-8, wherever the octets come from.
+            raw_reader = text_reader(is_unicode=True)
+            fp = getreader('utf-8')(fp)
     reader = blocking_reader(managed_reader(raw_reader, catalog), fp)
     out = []  # top-level
     _load(out, reader)
-- 
2.43.0


From 08e7fe6b25e2cf9ee3f88be4f7d9ae96689a13c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 16/49] fix: ignore or normalise malformed imports of a local
 symbol table as the specification says

---
 amazon/ion/reader_managed.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index 9e39856..540ef74 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -170,8 +170,12 @@ def _import_desc_handler(ctx, imports, whence):
         ion_type = ion_event.ion_type
 
         if event_type is IonEventType.CONTAINER_END:
-            if desc.name is not None or desc.name == TEXT_ION:
-                table = ctx.catalog.resolve(desc.name, desc.version, desc.max_id)
+            # Imports without a name, and those of the system table, are ignored; an unusable version is 1, and an
+            # unusable max_id is undefined.
+            if desc.name and desc.name != TEXT_ION:
+                version = desc.version if desc.version is not None and desc.version > 0 else 1
+                max_id = desc.max_id if desc.max_id is not None and desc.max_id >= 0 else None
+                table = ctx.catalog.resolve(desc.name, version, max_id)
                 imports.append(table)
 
             yield Transition(NEXT_EVENT, whence)
-- 
2.43.0


From 214b292b89644f0062a29316884a8e530c4ee4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 17/49] fix: reject negative zero ints in binary

---
 amazon/ion/reader_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 89340fd..6298caa 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -645,6 +645,8 @@ def _int_factory(sign, data):
         if length == 1:
             value <<= 8
             value |= six.indexbytes(data, -length)
+        if sign < 0 and value == 0:
+            raise IonException('Int zero may not be negative.')
         return sign * value
     return parse_int
 
-- 
2.43.0


From c621c44f1e852c34bf84c1a62643c0ec9d5e9cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 18/49] fix: accept NOP pads under any field name and reject
 annotated ones

---
 amazon/ion/reader_binary.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 6298caa..f4de127 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -441,9 +441,9 @@ def _ivm_handler(ctx):
 def _nop_pad_handler(ion_type, length, ctx):
     yield
 
-    if ctx.field_name is not None and ctx.field_name != SYMBOL_ZERO_TOKEN:
-        raise IonException(
-            'Cannot have NOP pad with non-zero symbol field, field SID %d' % ctx.field_name)
+    # Within a struct, the field name of a NOP pad has no meaning, whatever its SID.
+    if ctx.annotations:
+        raise IonException('Cannot annotate a NOP pad.')
 
     if length > 0:
         yield ctx.read_data_transition(length, ctx.whence, skip=True)
-- 
2.43.0


From f9699dc647fc759f10dc7f88ec0aa71b4734add4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 19/49] fix: reject local symbol tables with repeated symbols
 or imports fields

---
 amazon/ion/reader_managed.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index 540ef74..9488b95 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -220,6 +220,7 @@ def _imports_handler(ctx, imports, whence):
 def _local_symbol_table_handler(ctx):
     symbols = []
     imports = None
+    fields = set()
 
     ion_event, self = yield
     while True:
@@ -233,6 +234,11 @@ def _local_symbol_table_handler(ctx):
         else:
             field_name = ctx.resolve(ion_event.field_name).text
 
+        if field_name in (TEXT_SYMBOLS, TEXT_IMPORTS):
+            if field_name in fields:
+                raise IonException('Local symbol table with multiple %s fields' % (field_name,))
+            fields.add(field_name)
+
         trans = Transition(NEXT_EVENT, self)
         if event_type is IonEventType.CONTAINER_START:
             if field_name == TEXT_SYMBOLS and ion_type is IonType.LIST:
-- 
2.43.0


From f8686274bb2500e0db0dc803685791f124d36da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 20/49] fix: refuse text octets that end inside a character

---
 amazon/ion/simpleion.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index 74fff0b..c7f4edc 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -19,7 +19,7 @@ from __future__ import absolute_import
 from __future__ import division
 from __future__ import print_function
 
-from codecs import getreader
+from codecs import getincrementaldecoder
 from datetime import datetime
 from decimal import Decimal
 from io import BytesIO, TextIOBase
@@ -46,6 +46,21 @@ _IVM = b'\xe0\x01\x00\xea'
 _TEXT_TYPES = (TextIOBase, six.StringIO)
 
 
+class _Utf8Reader(object):
+    """Reads the characters of a binary file-like object that contains UTF-8."""
+
+    def __init__(self, fp):
+        self._fp = fp
+        self._decoder = getincrementaldecoder('utf-8')()
+
+    def read(self, size):
+        while True:
+            octets = self._fp.read(size)
+            text = self._decoder.decode(octets, not octets)
+            if text or not octets:
+                return text
+
+
 def dump(obj, fp, imports=None, binary=True, sequence_as_stream=False, skipkeys=False, ensure_ascii=True,
          check_circular=True, allow_nan=True, cls=None, indent=None, separators=None, encoding='utf-8', default=None,
          use_decimal=True, namedtuple_as_object=True, tuple_as_array=True, bigint_as_string=False, sort_keys=False,
@@ -363,7 +378,7 @@ def load(fp, catalog=None, single_value=True, encoding='utf-8', cls=None, object
         else:
             # Text is UTF-8, wherever the octets come from.
             raw_reader = text_reader(is_unicode=True)
-            fp = getreader('utf-8')(fp)
+            fp = _Utf8Reader(fp)
     reader = blocking_reader(managed_reader(raw_reader, catalog), fp)
     out = []  # top-level
     _load(out, reader)
-- 
2.43.0


From a16c8013999525c6d97aca47b19559b5c61621c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:26 +0000
Subject: [PATCH 21/49] fix: a chunk of input equal to the end-of-file marker
 is no end of file

---
 amazon/ion/reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader.py b/amazon/ion/reader.py
index 1ada2ab..19481ad 100644
--- a/amazon/ion/reader.py
+++ b/amazon/ion/reader.py
@@ -111,7 +111,13 @@ class CodePointArray:
         raise ValueError('Attempted to delete from code point sequence.')
 
 
-_EOF = b'\x04'  # End of transmission character.
+class _EndOfFile(six.binary_type):
+    """A type of its own, because interpreters may share equal instances of the built-in types, which would make a chunk
+    of input consisting of that character identical to the end of the file.
+    """
+
+
+_EOF = _EndOfFile(b'\x04')  # End of transmission character.
 
 
 class BufferQueue(object):
-- 
2.43.0


From 15885e63861f70aa5d560f8b3a5c7e5f37ae8209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 22/49] fix: SKIP in the text reader ends at the end of the
 current container

---
 amazon/ion/reader_text.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index c7af4b5..3c62968 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2155,14 +2155,17 @@ def _skip_trampoline(handler):
                 trans, delegate, event = pass_through()
                 if event is not None:
                     if event.event_type is IonEventType.CONTAINER_END and event.depth <= depth:
+                        depth = event.depth - 1
                         break
                 if event is None or event.event_type is IonEventType.INCOMPLETE:
                     data_event, _ = yield Transition(event, self)
         else:
             trans, delegate, event = pass_through()
-            if event is not None and (event.event_type is IonEventType.CONTAINER_START or
-                                      event.event_type is IonEventType.CONTAINER_END):
+            # The depth of the container the reader is in, which is that of its start and end events.
+            if event is not None and event.event_type is IonEventType.CONTAINER_START:
                 depth = event.depth
+            elif event is not None and event.event_type is IonEventType.CONTAINER_END:
+                depth = event.depth - 1
         data_event, _ = yield Transition(event, self)
 
 
-- 
2.43.0


From 71f96418488a1d9507fa9dfd765ce8c013d05415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:28 +0000
Subject: [PATCH 23/49] fix: SymbolTable.get returns the default for an absent
 text

---
 amazon/ion/symbols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/symbols.py b/amazon/ion/symbols.py
index 252852d..5b3a3e5 100644
--- a/amazon/ion/symbols.py
+++ b/amazon/ion/symbols.py
@@ -282,7 +282,7 @@ class SymbolTable(object):
             SymbolToken: The token associated with the key or the default if it doesn't exist.
         """
         if isinstance(key, six.text_type):
-            return self.__mapping.get(key, None)
+            return self.__mapping.get(key, default)
         if not isinstance(key, int):
             raise TypeError('Key must be int or Unicode sequence.')
 
-- 
2.43.0


From b5132134512eb1f948042735848e08746551ca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 24/49] fix: build fractional seconds from microseconds
 whatever the decimal context

---
 amazon/ion/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 550726d..f357919 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -510,9 +510,10 @@ class Timestamp(datetime):
                 # As previously verified, datetime_microseconds must be zero in this case.
                 fractional_seconds = DECIMAL_ZERO
             else:
+                context = Context(traps=[Inexact])
                 try:
-                    fractional_seconds = Decimal(datetime_microseconds).scaleb(-MICROSECOND_PRECISION)\
-                        .quantize(PRECISION_LIMIT_LOOKUP[fractional_precision], context=Context(traps=[Inexact]))
+                    fractional_seconds = Decimal(datetime_microseconds).scaleb(-MICROSECOND_PRECISION, context=context)\
+                        .quantize(PRECISION_LIMIT_LOOKUP[fractional_precision], context=context)
                 except Inexact:
                     raise ValueError('microsecond value %d cannot be expressed exactly in %d digits.'
                                      % (datetime_microseconds, fractional_precision))
-- 
2.43.0


From 133dd982443976a3bd7a7221d09f05d0a5a3c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 25/49] fix: assigning to an element of a key's values replaces
 it

---
 amazon/ion/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index f357919..63a7bfb 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -675,7 +675,7 @@ class MultimapValue(MutableSequence):
             self.__store = []
 
     def insert(self, index, value):
-        self.__setitem__(index, value)
+        self.__store.insert(index, value)
 
     def __len__(self):
         return len(self.__store)
@@ -684,7 +684,7 @@ class MultimapValue(MutableSequence):
         return self.__store[index]
 
     def __setitem__(self, index, value):
-        self.__store.insert(index, value)
+        self.__store[index] = value
 
     def __delitem__(self, index):
         del self.__store[index]
-- 
2.43.0


From 6083d34f139a8a3d08ade7013ce96487c1a9d4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 26/49] fix: text values may be followed by a vertical tab or a
 form feed

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 3c62968..174ca8b 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -96,7 +96,7 @@ _ENCODING = 'utf-8'
 # between how bytes objects are handled in python 2 and 3, and simplifies logic around comparing multi-byte characters.
 _WHITESPACE_NOT_NL = _seq(b' \t\v\f')
 _WHITESPACE = _WHITESPACE_NOT_NL + _seq(b'\n\r')
-_VALUE_TERMINATORS = _seq(b'{}[](),\"\' \t\n\r/')
+_VALUE_TERMINATORS = _seq(b'{}[](),\"\' \t\n\r\v\f/')
 _SYMBOL_TOKEN_TERMINATORS = _WHITESPACE + _seq(b'/:')
 _DIGITS = _seq(b'0123456789')
 _BINARY_RADIX = _seq(b'Bb')
-- 
2.43.0


From 4811128552ceb4d9cec0d66db657cf9945f8c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 27/49] fix: the end of text input inside a container is an
 error after any value

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 174ca8b..db6d055 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2048,7 +2048,7 @@ def _container_handler(c, ctx):
                     handler = _FIELD_NAME_START_TABLE[c](c, child_context)
                 else:
                     handler = _VALUE_START_TABLE[c](c, child_context)  # Initialize the new handler
-                    can_flush = _IMMEDIATE_FLUSH_TABLE[c]
+                    can_flush = ctx.depth == 0 and _IMMEDIATE_FLUSH_TABLE[c]
             container_start = c == _OPEN_BRACKET or \
                               c == _OPEN_PAREN  # _OPEN_BRACE might start a lob; that is handled elsewhere.
             quoted_start = c == _DOUBLE_QUOTE or c == _SINGLE_QUOTE
-- 
2.43.0


From 95184a6c3f0a051a2eb948bac59dadbfeca52538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 28/49] fix: a field name of one letter without a value is an
 error

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index db6d055..aa52215 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1281,7 +1281,7 @@ def _symbol_or_keyword_handler(c, ctx, is_field_name=False):
                 val.append(c)
                 match_index += 1
         else:
-            if c in _SYMBOL_TOKEN_TERMINATORS:
+            if c in _SYMBOL_TOKEN_TERMINATORS or (is_field_name and _ends_value(c)):
                 # This might be an annotation or a field name
                 ctx.set_pending_symbol(val)
                 trans = ctx.immediate_transition(ctx.whence)
-- 
2.43.0


From 12ae94334ab4cf7b0dfd2bcf383b641f89045c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 29/49] fix: a comment after an empty quoted symbol is not
 quoted text

---
 amazon/ion/reader_text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index aa52215..9c9b3b2 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1628,7 +1628,8 @@ _two_single_quotes_handler = _single_quote_handler_factory(
         _long_string_handler(c, ctx, is_field_name)
     ),
     lambda c, ctx, is_field_name:
-        ctx.set_ion_type(IonType.SYMBOL).set_pending_symbol().immediate_transition(ctx.whence)  # Empty symbol.
+        # Empty symbol.
+        ctx.set_ion_type(IonType.SYMBOL).set_quoted_text(False).set_pending_symbol().immediate_transition(ctx.whence)
 )
 _long_string_or_symbol_handler = _single_quote_handler_factory(
     lambda c, ctx, is_field_name:
-- 
2.43.0


From 370cfa316c138adfc0590c21a6e57d96959af043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 30/49] fix: in an s-expression + or - may be followed by the
 symbol i or in

---
 amazon/ion/reader_text.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 9c9b3b2..cbb063e 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1346,12 +1346,12 @@ def _inf_or_operator_handler_factory(c_start, is_delegate=True):
             if c in _OPERATORS:
                 yield ctx.immediate_transition(_operator_symbol_handler(c, ctx))
             yield ctx.event_transition(IonEvent, IonEventType.SCALAR, IonType.SYMBOL, ctx.value.as_symbol())
-        yield _CompositeTransition(
-            ctx.event_transition(IonEvent, IonEventType.SCALAR, IonType.SYMBOL, ctx.value.as_symbol()),
-            ctx,
-            partial(_unquoted_symbol_handler, c),
-            next_ctx
-        )
+        operator_trans = ctx.event_transition(IonEvent, IonEventType.SCALAR, IonType.SYMBOL, ctx.value.as_symbol())
+        if c not in _IDENTIFIER_CHARACTERS:
+            # The symbol that follows the operator has ended. It might be an annotation.
+            next_ctx.set_unicode().set_pending_symbol(next_ctx.value)
+            yield _CompositeTransition(operator_trans, ctx, None, next_ctx)
+        yield _CompositeTransition(operator_trans, ctx, partial(_unquoted_symbol_handler, c), next_ctx)
     return inf_or_operator_handler
 
 
-- 
2.43.0


From 48ec5aab3adf300e63282151868e94a9c99f8328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:33 +0000
Subject: [PATCH 31/49] fix: text input may end with a comment after an
 annotated symbol

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index cbb063e..ff18816 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1962,7 +1962,7 @@ def _container_handler(c, ctx):
                    ) or
                    (
                        child_context.line_comment and
-                       not is_value_decorated()
+                       (has_pending_symbol() or not is_value_decorated())
                    )
                )
 
-- 
2.43.0


From 27e2fe3c415a43e1b5daea67218ddc50792e4578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 32/49] fix: a comment between a field name or annotation and
 its value does not end the value early

---
 amazon/ion/reader_text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index ff18816..3613efa 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2045,6 +2045,9 @@ def _container_handler(c, ctx):
                 if not is_value_decorated():
                     # This is the start of a new child value.
                     child_context = ctx.derive_child_context(self)
+                else:
+                    # If a comment separated the value from its field name or annotation, this would have been set.
+                    child_context.set_self_delimiting(False)
                 if is_field_name:
                     handler = _FIELD_NAME_START_TABLE[c](c, child_context)
                 else:
-- 
2.43.0


From 08fea5ebab1999e481267cf878ffcfb155d111c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:14 +0000
Subject: [PATCH 33/49] fix: an unfinished block comment at the end of text
 input is an error

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 3613efa..6cb372a 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1040,6 +1040,8 @@ def _comment_handler(c, ctx, whence):
     while not done:
         c, _ = yield trans
         if block_comment:
+            if BufferQueue.is_eof(c):
+                _illegal_character(c, ctx, 'Unexpected EOF in block comment.')
             if prev == _ASTERISK and c == _SLASH:
                 done = True
             prev = c
-- 
2.43.0


From 3b4c8d7003d6425868213a5a33d2d08d399ee170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 34/49] fix: an empty quoted symbol after a long string is
 kept, and may be an annotation

---
 amazon/ion/reader_text.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 6cb372a..a52a103 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1158,7 +1158,8 @@ def _long_string_handler(c, ctx, is_field_name=False):
                                 partial(_quoted_symbol_handler, c, is_field_name=False),
                             )
                         else:  # quotes == 2
-                            trans = _CompositeTransition(trans, ctx, None, ctx.set_empty_symbol())
+                            next_ctx = ctx.derive_child_context(ctx.whence)
+                            trans = _CompositeTransition(trans, ctx, None, next_ctx.set_empty_symbol())
                 elif c not in _WHITESPACE:
                     if is_clob:
                         trans = ctx.immediate_transition(_clob_end_handler(c, ctx))
@@ -2099,8 +2100,9 @@ def _container_handler(c, ctx):
                             None,
                             _container_handler(c, ctx.derive_container_context(trans.event.ion_type, self))
                         )
-                    complete = ctx.depth == 0
-                    can_flush = False
+                    # The stream may not end before a symbol that is pending after this value is emitted.
+                    can_flush = ctx.depth == 0 and bool(has_pending_symbol())
+                    complete = ctx.depth == 0 and not can_flush
                     if is_container or is_self_delimiting:
                         # The end of the value has been reached, and c needs to be updated
                         assert not ctx.quoted_text
-- 
2.43.0


From 863d2f25b317164b3aa0b7d2b84fc1a6bac25031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 35/49] fix: $ion__ followed by digits is no version marker

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index a52a103..2198f09 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1474,7 +1474,7 @@ def _symbol_identifier_or_unquoted_symbol_handler(c, ctx, is_field_name=False):
                     if c in _DIGITS:
                         if ivm_post_underscore:
                             complete_ivm = True
-                    elif c == _UNDERSCORE and not ivm_post_underscore:
+                    elif c == _UNDERSCORE and prev in _DIGITS and not ivm_post_underscore:
                         ivm_post_underscore = True
                     else:
                         maybe_ivm = False
-- 
2.43.0


From 22cc034b656a2bdedac31b0c966e6fa60530e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 36/49] fix: compare tuples and plain Multimaps under the Ion
 data model

ion_equals fell back to Python's == for them, which takes 1 for True, 1 for 1.0,
loses all but one of the values of a repeated field, and took the sequence
('a', None, None) for a symbol token.
---
 amazon/ion/equivalence.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 027fbe1..5f559c6 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -97,14 +97,14 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
             return False
     # Reaching this point means that neither operand has _IonNature.
     for a, b in ((a, b), (b, a)):  # Ensures that operand order does not matter.
-        if isinstance(a, list):
+        if isinstance(a, SymbolToken):
+            return _symbols_eq(a, b)
+        elif isinstance(a, (list, tuple)):
             return _sequences_eq(a, b, recursive_comparison_func)
-        elif isinstance(a, dict):
+        elif isinstance(a, (dict, Multimap)):
             return _structs_eq(a, b, recursive_comparison_func)
         elif isinstance(a, datetime):
             return timestamp_comparison_func(a, b)
-        elif isinstance(a, SymbolToken):
-            return _symbols_eq(a, b)
         elif isinstance(a, Decimal):
             return _decimals_eq(a, b)
         elif isinstance(a, float):
@@ -120,7 +120,7 @@ def _annotations_eq(a, b):
 
 def _sequences_eq(a, b, comparison_func):
     assert isinstance(a, (list, tuple))
-    if not isinstance(b, (list, tuple)):
+    if not isinstance(b, (list, tuple)) or isinstance(b, SymbolToken):
         return False
     sequence_len = len(a)
     if sequence_len != len(b):
-- 
2.43.0


From 1973e745df6d40c4f8eeef4071975b1271258066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:39 +0000
Subject: [PATCH 37/49] fix: timestamps that differ beyond microseconds are not
 the same instant

With timestamps_instants_only, ion_equals compared datetimes, which drop the
digits of fractional_seconds after the sixth.
---
 amazon/ion/equivalence.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 5f559c6..aff7d67 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -26,7 +26,8 @@ from math import isnan
 
 import six
 
-from amazon.ion.core import IonType, Timestamp, TimestampPrecision, MICROSECOND_PRECISION, OffsetTZInfo, Multimap
+from amazon.ion.core import IonType, Timestamp, TimestampPrecision, MICROSECOND_PRECISION, OffsetTZInfo, Multimap, \
+    TIMESTAMP_FRACTIONAL_SECONDS_FIELD
 from amazon.ion.simple_types import _IonNature, IonPyList, IonPyDict, IonPyTimestamp, IonPyNull, IonPySymbol, \
     IonPyText, IonPyDecimal, IonPyFloat, IonPyInt
 from amazon.ion.symbols import SymbolToken
@@ -198,6 +199,9 @@ def _timestamp_instants_eq(a, b):
     assert isinstance(a, datetime)
     if not isinstance(b, datetime):
         return False
+    if _fraction_of_microsecond(a) != _fraction_of_microsecond(b):
+        # datetime's __eq__ only knows of microseconds.
+        return False
     # datetime's __eq__ can't compare a None offset and a non-None offset. For these equivalence semantics, a None
     # offset (unknown local offset) is treated equivalently to a +00:00.
     if a.tzinfo is None:
@@ -208,6 +212,18 @@ def _timestamp_instants_eq(a, b):
     return a == b
 
 
+def _fraction_of_microsecond(x):
+    """Returns the part of the timestamp's fractional seconds that lies beyond its microseconds."""
+    fractional_seconds = getattr(x, TIMESTAMP_FRACTIONAL_SECONDS_FIELD, None)
+    if fractional_seconds is None:
+        return 0
+    _, digits, exponent = fractional_seconds.as_tuple()
+    excess_digits = -exponent - MICROSECOND_PRECISION
+    if excess_digits <= 0:
+        return 0
+    return Decimal((0, digits[-excess_digits:], exponent))
+
+
 def _symbols_eq(a, b):
     assert isinstance(a, (six.text_type, SymbolToken))
     if not isinstance(b, (six.text_type, SymbolToken)):
-- 
2.43.0


From 51e924b3228fe0b17e8f92a33178f2597b97ed37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:43 +0000
Subject: [PATCH 38/49] fix: timestamps with different numbers of fractional
 digits are not equal

Beyond six digits ion_equals took 0.000000 for 0.00000000, and any excess digits
for a plain datetime's microseconds, because fractional_precision stops at six.
---
 amazon/ion/equivalence.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index aff7d67..b1c6385 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -183,11 +183,14 @@ def _timestamps_eq(a, b):
         if isinstance(a, Timestamp):
             if isinstance(b, Timestamp):
                 # Both operands declare their precisions. They are only equivalent if their precisions are the same.
+                # Beyond microseconds, only the exponent of the fractional seconds tells.
                 if a.precision is b.precision and a.fractional_precision is b.fractional_precision \
-                        and a.fractional_seconds == b.fractional_seconds:
+                        and a.fractional_seconds == b.fractional_seconds \
+                        and a.fractional_seconds.as_tuple().exponent == b.fractional_seconds.as_tuple().exponent:
                     break
                 return False
-            elif a.precision is not TimestampPrecision.SECOND or a.fractional_precision != MICROSECOND_PRECISION:
+            elif a.precision is not TimestampPrecision.SECOND \
+                    or a.fractional_seconds.as_tuple().exponent != -MICROSECOND_PRECISION:
                 # Only one of the operands declares its precision. It is only equivalent to the other (a naive datetime)
                 # if it has full microseconds precision.
                 return False
-- 
2.43.0


From 2434b8d4d60cecff157d4dcc519c6c153751e4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 39/49] fix: dump a symbol as a symbol with sequence_as_stream
 too

SymbolToken is a tuple, so its text, sid and location were written as three values.
---
 amazon/ion/simpleion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index c7f4edc..477f5f7 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -165,7 +165,7 @@ def dump(obj, fp, imports=None, binary=True, sequence_as_stream=False, skipkeys=
     from_type = _FROM_TYPE_TUPLE_AS_SEXP if tuple_as_sexp else _FROM_TYPE
     if binary or not omit_version_marker:
         writer.send(ION_VERSION_MARKER_EVENT)  # The IVM is emitted automatically in binary; it's optional in text.
-    if sequence_as_stream and isinstance(obj, (list, tuple)):
+    if sequence_as_stream and isinstance(obj, (list, tuple)) and not isinstance(obj, SymbolToken):
         # Treat this top-level sequence as a stream; serialize its elements as top-level values, but don't serialize the
         # sequence itself.
         for top_level in obj:
-- 
2.43.0


From d6aa21633a2d71ec40625612117ea67b17501ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 40/49] fix: refuse to indent text with characters that are not
 white space in Ion

\s also matches characters such as U+001C and U+00A0; what was written could not be read.
---
 amazon/ion/writer_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 2577d91..c3bcfb7 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -451,7 +451,7 @@ def raw_writer(indent=None):
         ``HAS_PENDING`` :class:`WriteEventType` events.
     """
 
-    is_whitespace_str = isinstance(indent, str) and re.search(r'\A\s*\Z', indent, re.M) is not None
+    is_whitespace_str = isinstance(indent, str) and re.search(r'\A[ \t\n\r\v\f]*\Z', indent, re.M) is not None
     if not (indent is None or is_whitespace_str):
         raise ValueError('The indent parameter must either be None or a string containing only whitespace')
 
-- 
2.43.0


From 7f90b6cbaf6d22d5811c86d1e51a8cdb74587715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:45 +0000
Subject: [PATCH 41/49] fix: load reads from where the file is, not from its
 start

Looking for the version marker rewound a binary file to its beginning, so that what
comes before the file's position was read as Ion too; text files were not rewound.
---
 amazon/ion/simpleion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index 477f5f7..4ff68c9 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -371,8 +371,9 @@ def load(fp, catalog=None, single_value=True, encoding='utf-8', cls=None, object
     if isinstance(fp, _TEXT_TYPES):
         raw_reader = text_reader(is_unicode=True)
     else:
+        start = fp.tell()
         maybe_ivm = fp.read(4)
-        fp.seek(0)
+        fp.seek(start)
         if maybe_ivm == _IVM:
             raw_reader = binary_reader()
         else:
-- 
2.43.0


From c5e5edee92130158205339dbf890ae8363b70c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 42/49] fix: writers refuse bool, clob and blob events whose
 value is not of that type

---
 amazon/ion/writer_binary_raw.py | 2 ++
 amazon/ion/writer_text.py       | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index 97c522c..d3d916b 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -105,6 +105,7 @@ _BOOL_FALSE = bytearray([_TypeIds.BOOL_FALSE])
 
 
 def _serialize_bool(ion_event):
+    validate_scalar_value(ion_event.value, six.integer_types)
     if ion_event.value:
         return _BOOL_TRUE
     else:
@@ -231,6 +232,7 @@ def _serialize_symbol(ion_event):
 def _serialize_lob_value(event, tid):
     buf = bytearray()
     value = event.value
+    validate_scalar_value(value, (six.binary_type, bytearray, memoryview))
     _write_length(buf, len(value), tid)
     buf.extend(value)
     return buf
diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index c3bcfb7..972b0e7 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -61,6 +61,7 @@ _NULL_TYPE_NAMES = [
 
 
 def _serialize_bool(ion_event):
+    validate_scalar_value(ion_event.value, six.integer_types)
     if ion_event.value:
         return b'true'
     else:
@@ -289,11 +290,13 @@ _LOB_END = b'}}'
 
 def _serialize_clob(ion_event):
     value = ion_event.value
+    validate_scalar_value(value, (six.binary_type, bytearray, memoryview))
     return _bytes_text(six.iterbytes(value), _DOUBLE_QUOTE, prefix=_LOB_START, suffix=_LOB_END)
 
 
 def _serialize_blob(ion_event):
     value = ion_event.value
+    validate_scalar_value(value, (six.binary_type, bytearray, memoryview))
     return _LOB_START + base64.b64encode(value) + _LOB_END
 
 
-- 
2.43.0


From 270979e5e62d738f644a2cbbaf51d0730b139450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:19 +0000
Subject: [PATCH 43/49] fix: reject a version marker inside an annotation
 wrapper

---
 amazon/ion/reader_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index f4de127..8c38757 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -429,6 +429,8 @@ def _ivm_handler(ctx):
 
     if ctx.depth != 0:
         raise IonException('IVM encountered below top-level')
+    if ctx.annotations is not None:
+        raise IonException('IVM encountered within an annotation wrapper')
 
     yield ctx.read_data_transition(_IVM_TAIL_LEN, self)
     ivm_tail = ctx.queue.read(_IVM_TAIL_LEN)
-- 
2.43.0


From ac35851879c6233854f2b29a361d919de370a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:15 +0000
Subject: [PATCH 44/49] fix: no base-64 digit may follow padding, even after
 white space

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 2198f09..c791f75 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1747,7 +1747,7 @@ def _blob_end_handler_factory():
     def action(c, ctx, prev, res, is_first):
         num_digits, num_pads = expand_res(res)
         if c in _BASE64_DIGITS:
-            if prev == _CLOSE_BRACE or prev == _BASE64_PAD:
+            if prev == _CLOSE_BRACE or num_pads > 0:
                 _illegal_character(c, ctx.set_ion_type(IonType.BLOB))
             num_digits += 1
         elif c == _BASE64_PAD:
-- 
2.43.0


From 31cd03cdd2461449ea78ceb5c85302f12e736db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:26 +0000
Subject: [PATCH 45/49] fix: skipping out of a container whose contents overran
 it is an error

---
 amazon/ion/reader_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 8c38757..3ca5388 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -585,6 +585,8 @@ def _container_handler(ion_type, ctx):
     while True:
         data_event, self = (yield transition)
         if data_event is not None and data_event.type is ReadEventType.SKIP:
+            if ctx.remaining < 0:
+                raise IonException('Length overrun: %d bytes beyond the end of the container' % -ctx.remaining)
             yield ctx.read_data_transition(ctx.remaining, self, skip=True)
 
         if ctx.queue.position == ctx.limit:
-- 
2.43.0


From 5fa1f4b023b87255f7ecc5cec7f98c86700df468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:13 +0000
Subject: [PATCH 46/49] fix: an escaped quote does not open a long clob

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index c791f75..f39c848 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1683,7 +1683,7 @@ def _lob_start_handler(c, ctx):
                 _illegal_character(c, ctx)
             ctx.set_ion_type(IonType.CLOB).set_unicode(quoted_text=True)
             yield ctx.immediate_transition(_short_string_handler(c, ctx))
-        elif c == _SINGLE_QUOTE:
+        elif c == _SINGLE_QUOTE and not _is_escaped(c):
             if not quotes:
                 ctx.set_ion_type(IonType.CLOB).set_unicode(quoted_text=True)
             quotes += 1
-- 
2.43.0


From 9bbb3b5197578aa0d54882dee2bd860dd9994a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:13 +0000
Subject: [PATCH 47/49] fix: nothing may follow the T of a timestamp without a
 day

---
 amazon/ion/reader_text.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index f39c848..3cd7ed0 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -954,7 +954,7 @@ def _timestamp_handler(c, ctx):
     val = None
     can_terminate = False
     if prev == _T:
-        nxt += _VALUE_TERMINATORS
+        nxt = _VALUE_TERMINATORS
         can_terminate = True
     while True:
         is_eof = can_terminate and BufferQueue.is_eof(c)
@@ -975,7 +975,8 @@ def _timestamp_handler(c, ctx):
                 nxt = _VALUE_TERMINATORS
                 can_terminate = True
             elif c == _T:
-                nxt = _VALUE_TERMINATORS + _DIGITS
+                # Only behind a day may a time follow.
+                nxt = _VALUE_TERMINATORS + (_DIGITS if state == _TimestampState.DAY else ())
                 can_terminate = True
             elif c in _TIMESTAMP_DELIMITERS:
                 nxt = _DIGITS
-- 
2.43.0


From b55098d7dcbd98f359dc404e902c66566886deec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:09 +0000
Subject: [PATCH 48/49] fix: what follows an operator that starts with a slash
 behind a comment is not lost

---
 amazon/ion/reader_text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 3cd7ed0..42dcc46 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2009,6 +2009,9 @@ def _container_handler(c, ctx):
                     # This is the start of a new child value (or, if this is a comment, a new value will start after the
                     # comment ends).
                     child_context = ctx.derive_child_context(self)
+                else:
+                    # If a comment came before, this would have been set.
+                    child_context.set_self_delimiting(False)
                 if ctx.ion_type is IonType.SEXP:
                     handler = _sexp_slash_handler(c, child_context, pending_event=pending_symbol_value())
                 else:
-- 
2.43.0


From d9cd95755ac7a250b1ee71d6b1fb7b1473216d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:32 +0000
Subject: [PATCH 49/49] fix: a length or field name that overruns its container
 is refused however the input is chunked

---
 amazon/ion/reader_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 3ca5388..90b75ad 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -412,8 +412,8 @@ def _var_uint_field_handler(handler, ctx):
     queue = ctx.queue
     value = 0
     while True:
-        if len(queue) == 0:
-            # We don't know when the field ends, so read at least one byte.
+        if len(queue) == 0 or ctx.remaining < 1:
+            # We don't know when the field ends, so read at least one byte (which has to be within the container).
             yield ctx.read_data_transition(1, self)
         octet = queue.read_byte()
         value <<= _VAR_INT_VALUE_BITS
-- 
2.43.0

