From eca37d4ee162775d85e5c476f1ac5db4617efedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:47 +0000
Subject: [PATCH 01/13] fix: raise InsufficientDataBytes for byte string
 lengths of 2**63 and more

---
 eth_abi/decoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 71d087a..27ea2f6 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -596,7 +596,9 @@ class ByteStringDecoder(SingleDecoder):
         data_length = decode_uint_256(stream)
         padded_length = ceil32(data_length)
 
-        data = stream.read(padded_length)
+        # never ask the stream for more than it holds, since lengths found in a payload
+        # may exceed what `read()` can be given
+        data = stream.read(min(padded_length, len(stream.getbuffer())))
 
         if self.strict:
             if len(data) < padded_length:
-- 
2.43.0


From 37968d0e7e070a9950db25bc883a3278417042d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:47 +0000
Subject: [PATCH 02/13] fix: do not return truncated byte strings when decoding
 with strict=False

---
 eth_abi/decoding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 27ea2f6..e584d2c 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -611,6 +611,10 @@ class ByteStringDecoder(SingleDecoder):
                 raise NonEmptyPaddingBytes(
                     f"Padding bytes were not empty: {repr(padding_bytes)}"
                 )
+        elif len(data) < data_length:
+            raise InsufficientDataBytes(
+                f"Tried to read {data_length} bytes, only got {len(data)} bytes"
+            )
 
         return data[:data_length]
 
-- 
2.43.0


From 490e01bf1fd9c2b05b01703f186ac7e8f4fe8b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:18 +0000
Subject: [PATCH 03/13] fix: reject tuple pointers into heads that contain
 static tuples or nested static arrays

---
 eth_abi/decoding.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index e584d2c..419a5d6 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -193,31 +193,31 @@ class TupleDecoder(BaseDecoder):
         Verify that all pointers point to a valid location in the stream.
         """
         current_location = stream.tell()
-        len_of_head = sum(
-            getattr(decoder, "array_size", 1) for decoder in self.decoders
-        )
-        end_of_offsets = current_location + 32 * len_of_head
-        total_stream_length = len(stream.getbuffer())
+        pointers = []
         for decoder in self.decoders:
             if isinstance(decoder, HeadTailDecoder):
                 # the next 32 bytes are a pointer
+                pointer_location = stream.tell()
                 offset = decode_uint_256(stream)
-                indicated_idx = current_location + offset
-                if (
-                    indicated_idx < end_of_offsets
-                    or indicated_idx >= total_stream_length
-                ):
-                    # the pointer is indicating its data is located either within the
-                    # offsets section of the stream or beyond the end of the stream,
-                    # both of which are invalid
-                    raise InvalidPointer(
-                        "Invalid pointer in tuple at location "
-                        f"{stream.tell() - 32} in payload"
-                    )
+                pointers.append((pointer_location, current_location + offset))
             else:
-                # the next 32 bytes are not a pointer, so progress the stream per
-                # the decoder
+                # the next bytes are not a pointer, so progress the stream per the
+                # decoder
                 decoder(stream)
+
+        # the head section may be longer than 32 bytes per decoder since it contains
+        # static tuples and arrays in full
+        end_of_offsets = stream.tell()
+        total_stream_length = len(stream.getbuffer())
+        for pointer_location, indicated_idx in pointers:
+            if indicated_idx < end_of_offsets or indicated_idx >= total_stream_length:
+                # the pointer is indicating its data is located either within the
+                # offsets section of the stream or beyond the end of the stream,
+                # both of which are invalid
+                raise InvalidPointer(
+                    "Invalid pointer in tuple at location "
+                    f"{pointer_location} in payload"
+                )
         # return the stream to its original location for actual decoding
         stream.seek(current_location)
 
-- 
2.43.0


From 0e6917a56019b9e3de51a51754bac685f49181cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:18 +0000
Subject: [PATCH 04/13] fix: do not encode decimals below 1E-1000998 as zero

---
 eth_abi/utils/numeric.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eth_abi/utils/numeric.py b/eth_abi/utils/numeric.py
index b44e4dc..1bff207 100644
--- a/eth_abi/utils/numeric.py
+++ b/eth_abi/utils/numeric.py
@@ -5,7 +5,10 @@ import decimal
 
 ABI_DECIMAL_PREC = 999
 
-abi_decimal_context = decimal.Context(prec=ABI_DECIMAL_PREC)
+# the full exponent range is used so that no operation on a value can underflow to zero
+abi_decimal_context = decimal.Context(
+    prec=ABI_DECIMAL_PREC, Emin=decimal.MIN_EMIN, Emax=decimal.MAX_EMAX
+)
 
 ZERO = decimal.Decimal(0)
 TEN = decimal.Decimal(10)
-- 
2.43.0


From 92004d9504888bd150464dee9d1319f500501047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:18 +0000
Subject: [PATCH 05/13] fix: raise EncodingTypeError for fractions and complex
 numbers as fixed values

---
 eth_abi/encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 3d90518..fa2e9f3 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -7,6 +7,7 @@ import decimal
 from itertools import (
     accumulate,
 )
+import numbers
 from typing import (
     Any,
 )
@@ -18,7 +19,6 @@ from eth_utils import (
     is_bytes,
     is_integer,
     is_list_like,
-    is_number,
     is_text,
     to_canonical_address,
 )
@@ -334,7 +334,7 @@ class BaseFixedEncoder(NumberEncoder):
 
     @staticmethod
     def type_check_fn(value):
-        return is_number(value) and not isinstance(value, float)
+        return isinstance(value, (numbers.Integral, decimal.Decimal))
 
     @staticmethod
     def illegal_value_fn(value):
-- 
2.43.0


From 05ceec5524f6f0114ba71b117d5ac7a3db55e289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:18 +0000
Subject: [PATCH 06/13] fix: report values without a repr as unencodable
 instead of failing on them

---
 eth_abi/utils/string.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eth_abi/utils/string.py b/eth_abi/utils/string.py
index abd76b8..1515c5a 100644
--- a/eth_abi/utils/string.py
+++ b/eth_abi/utils/string.py
@@ -8,7 +8,11 @@ def abbr(value: Any, limit: int = 79) -> str:
     Converts a value into its string representation and abbreviates that
     representation based on the given length `limit` if necessary.
     """
-    rep = repr(value)
+    try:
+        rep = repr(value)
+    except Exception:
+        # e.g. integers with more digits than `sys.get_int_max_str_digits()`
+        rep = object.__repr__(value)
 
     if len(rep) > limit:
         if limit < 3:
-- 
2.43.0


From c39b8c939a6ac4720b2cb0fd8ffe98d5cf24081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:18 +0000
Subject: [PATCH 07/13] fix: raise IllegalValue for texts without a UTF-8 form

---
 eth_abi/encoding.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index fa2e9f3..0534027 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -544,6 +544,15 @@ class TextStringEncoder(BaseEncoder):
         if not is_text(value):
             cls.invalidate_value(value)
 
+        try:
+            codecs.encode(value, "utf8")
+        except UnicodeEncodeError:
+            cls.invalidate_value(
+                value,
+                exc=IllegalValue,
+                msg="text cannot be represented in UTF-8",
+            )
+
     @classmethod
     def encode(cls, value):
         cls.validate_value(value)
-- 
2.43.0


From b8b191af9f3c453321746c1badf36118f9444ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:18 +0000
Subject: [PATCH 08/13] fix: allow callables registered for a type to be used
 for arrays of that type

---
 eth_abi/decoding.py | 4 ++--
 eth_abi/encoding.py | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 419a5d6..267b367 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -272,7 +272,7 @@ class BaseArrayDecoder(BaseDecoder):
         super().__init__(**kwargs)
 
         # Use a head-tail decoder to decode dynamic elements
-        if self.item_decoder.is_dynamic:
+        if getattr(self.item_decoder, "is_dynamic", False):
             self.item_decoder = HeadTailDecoder(
                 tail_decoder=self.item_decoder,
             )
@@ -329,7 +329,7 @@ class SizedArrayDecoder(BaseArrayDecoder):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
-        self.is_dynamic = self.item_decoder.is_dynamic
+        self.is_dynamic = getattr(self.item_decoder, "is_dynamic", False)
 
     @to_tuple
     def decode(self, stream):
diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 0534027..d627339 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -596,7 +596,10 @@ class BaseArrayEncoder(BaseEncoder):
             )
 
         for item in value:
-            self.item_encoder.validate_value(item)
+            try:
+                self.item_encoder.validate_value(item)
+            except AttributeError:
+                self.item_encoder(item)
 
     def encode_elements(self, value):
         self.validate_value(value)
@@ -672,7 +675,7 @@ class SizedArrayEncoder(BaseArrayEncoder):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
-        self.is_dynamic = self.item_encoder.is_dynamic
+        self.is_dynamic = getattr(self.item_encoder, "is_dynamic", False)
 
     def validate(self):
         super().validate()
-- 
2.43.0


From c7d8384bc04333999d5c998916b793991757ec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:18 +0000
Subject: [PATCH 09/13] fix: remove the label of a predicate which is
 unregistered by equality

---
 eth_abi/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 29b8fc5..d38f24a 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -123,7 +123,7 @@ class PredicateMapping(Copyable):
         # Both keys and values in `_labeled_predicates` are unique since the
         # `add` method enforces this
         for key, value in self._labeled_predicates.items():
-            if value is predicate:
+            if value == predicate:
                 return key
 
         raise ValueError(
-- 
2.43.0


From 8a03b26f4f263c0fcb15742af3af9c2ebde64224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:18 +0000
Subject: [PATCH 10/13] fix: reject bool types with a suffix

---
 eth_abi/grammar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eth_abi/grammar.py b/eth_abi/grammar.py
index fe24044..16228ac 100644
--- a/eth_abi/grammar.py
+++ b/eth_abi/grammar.py
@@ -395,6 +395,11 @@ class BasicType(ABIType):
             if sub is not None:
                 self.invalidate("address cannot have suffix")
 
+        # Check validity of bool type
+        elif base == "bool":
+            if sub is not None:
+                self.invalidate("bool cannot have suffix")
+
 
 TYPE_ALIASES = {
     "int": "int256",
-- 
2.43.0


From fac50937654adbb9d00d11ec93f6f02239b2c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:18 +0000
Subject: [PATCH 11/13] fix: keep the strict flag of one decode call from
 affecting others

---
 eth_abi/decoding.py | 19 +++++++++++++++++++
 eth_abi/registry.py | 10 +++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 267b367..c147b85 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -3,6 +3,7 @@ from collections.abc import (
     Callable,
     Generator,
 )
+import copy
 import decimal
 import io
 from typing import (
@@ -169,6 +170,24 @@ class HeadTailDecoder(BaseDecoder):
         return value
 
 
+def with_strictness(decoder, strict):
+    """
+    Returns a decoder which works like ``decoder`` with its ``strict`` flag set to the
+    given value if it is dynamic.  Since a decoder may be in use elsewhere, it is never
+    modified itself.
+    """
+    if (
+        not getattr(decoder, "is_dynamic", False)
+        or getattr(decoder, "strict", None) == strict
+    ):
+        return decoder
+
+    new_decoder = copy.copy(decoder)
+    new_decoder.strict = strict
+
+    return new_decoder
+
+
 class TupleDecoder(BaseDecoder):
     decoders: tuple[BaseDecoder, ...] | None = None
 
diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index d38f24a..d1ab928 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -474,13 +474,9 @@ class ABIRegistry(Copyable, BaseRegistry):
     def _get_decoder_uncached(self, type_str, strict=True):
         decoder = self._get_registration(self._decoders, type_str)
 
-        if hasattr(decoder, "is_dynamic") and decoder.is_dynamic:
-            # Set a transient flag each time a call is made to ``get_decoder()``.
-            # Only dynamic decoders should be allowed these looser constraints. All
-            # other decoders should keep the default value of ``True``.
-            decoder.strict = strict
-
-        return decoder
+        # Only dynamic decoders should be allowed looser constraints. All other
+        # decoders should keep the default value of ``True``.
+        return decoding.with_strictness(decoder, strict)
 
     def copy(self):
         """
-- 
2.43.0


From d296e386eef48e1bceab73c6538a1315d5cd1492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:18 +0000
Subject: [PATCH 12/13] fix: apply strict=False to byte strings inside tuples
 and arrays

---
 eth_abi/decoding.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index c147b85..15add9b 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -185,6 +185,16 @@ def with_strictness(decoder, strict):
     new_decoder = copy.copy(decoder)
     new_decoder.strict = strict
 
+    # the flag also applies to the values contained in a value
+    if isinstance(new_decoder, HeadTailDecoder):
+        new_decoder.tail_decoder = with_strictness(new_decoder.tail_decoder, strict)
+    elif isinstance(new_decoder, BaseArrayDecoder):
+        new_decoder.item_decoder = with_strictness(new_decoder.item_decoder, strict)
+    elif isinstance(new_decoder, TupleDecoder):
+        new_decoder.decoders = tuple(
+            with_strictness(d, strict) for d in new_decoder.decoders
+        )
+
     return new_decoder
 
 
-- 
2.43.0


From bf95605c2eafdc4e865d52ce7fb97282bb88fc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:47 +0000
Subject: [PATCH 13/13] fix: support the "byte" alias outside of tuples and
 arrays

---
 eth_abi/registry.py          | 11 +++++++++++
 eth_abi/tools/_strategies.py |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index d1ab928..020cb76 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -551,6 +551,12 @@ registry.register(
     decoding.BytesDecoder,
     label="function",
 )
+registry.register(
+    BaseEquals("byte", with_sub=False),
+    encoding.BytesEncoder,
+    decoding.BytesDecoder,
+    label="byte",
+)
 registry.register(
     BaseEquals("string"),
     encoding.TextStringEncoder,
@@ -617,6 +623,11 @@ registry_packed.register_encoder(
     encoding.PackedBytesEncoder,
     label="function",
 )
+registry_packed.register_encoder(
+    BaseEquals("byte", with_sub=False),
+    encoding.PackedBytesEncoder,
+    label="byte",
+)
 registry_packed.register_encoder(
     BaseEquals("string"),
     encoding.PackedTextStringEncoder,
diff --git a/eth_abi/tools/_strategies.py b/eth_abi/tools/_strategies.py
index 201ff74..fb66b6e 100644
--- a/eth_abi/tools/_strategies.py
+++ b/eth_abi/tools/_strategies.py
@@ -218,6 +218,11 @@ strategy_registry.register_strategy(
     get_bytes_strategy,
     label="function",
 )
+strategy_registry.register_strategy(
+    BaseEquals("byte", with_sub=False),
+    get_bytes_strategy,
+    label="byte",
+)
 strategy_registry.register_strategy(
     BaseEquals("string", with_sub=False),
     string_strategy,
-- 
2.43.0

