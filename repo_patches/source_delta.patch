From 68f4126841dc89cb1f810e113a6afef5e3ac6eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 01/76] fix: read falsy keywords as False when strictness is
 off

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e04df80..12ea1a5 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -52,7 +52,7 @@ def _bool_from_str(s: str) -> bool:
     if s.lower() in ("yes", "true", "on", "enabled"):
         return True
     if s.lower() in ("no", "false", "off", "disabled"):
-        return True
+        return False
     raise ValueError(f"not a truthy keyword: {s!r}")
 
 
-- 
2.43.0


From 26c42cd2f73fe7762f71d927a59b328e88ae43dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 02/76] fix: report lossy and overflowing number conversions as
 ConversionError

---
 databind/src/databind/json/converters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 12ea1a5..31cf5a8 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -42,7 +42,8 @@ T = t.TypeVar("T")
 def _int_lossless(v: float) -> int:
     """Convert *v* to an integer only if the conversion is lossless, otherwise raise an error."""
 
-    assert v % 1.0 == 0.0, f"expected int, got {v!r}"
+    if v % 1.0 != 0.0:
+        raise ValueError(f"expected int, got {v!r}")
     return int(v)
 
 
@@ -434,7 +435,7 @@ class PlainDatatypeConverter(Converter):
 
         try:
             return adapter(ctx.value)
-        except ValueError as exc:
+        except (ValueError, OverflowError) as exc:
             raise ConversionError(self, ctx, str(exc)) from exc
 
 
-- 
2.43.0


From c2b06c32b7d366953d41147a68df0fd117fee52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 03/76] fix: check the type of a collection before iterating
 over it

---
 databind/src/databind/json/converters.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 31cf5a8..a486b62 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -144,22 +144,21 @@ class CollectionConverter(Converter):
             def _length_check() -> None:
                 pass
 
-        values: t.Iterable[t.Any] = (
-            ctx.spawn(val, item_type, idx).convert()
-            for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator))
-        )
+        def _convert_values() -> t.Iterator[t.Any]:
+            for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator)):
+                yield ctx.spawn(val, item_type, idx).convert()
 
         if ctx.direction == Direction.SERIALIZE:
             if not isinstance(ctx.value, python_type):
                 raise ConversionError.expected(self, ctx, python_type)
             _length_check()
-            return self.json_collection_type(values)  # type: ignore[call-arg]
+            return self.json_collection_type(_convert_values())  # type: ignore[call-arg]
 
         else:
             if not isinstance(ctx.value, t.Collection) or isinstance(ctx.value, self._FORBIDDEN_COLLECTIONS):
                 raise ConversionError.expected(self, ctx, t.Collection)
             _length_check()
-            values = list(values)
+            values = list(_convert_values())
             if python_type == list:
                 return values
             elif hasattr(python_type, "_fields"):  # For collections.namedtuple
-- 
2.43.0


From dd04f0dc40058ce08de5984e0df3653e3a8e82bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:39 +0000
Subject: [PATCH 04/76] fix: honour Precision and report malformed text when
 reading decimals

---
 databind/src/databind/json/converters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index a486b62..7ab65c9 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -237,7 +237,11 @@ class DecimalConverter(Converter):
 
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
-                return decimal.Decimal(ctx.value, context)
+                try:
+                    value = context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
+                except (ArithmeticError, ValueError) as exc:
+                    raise ConversionError(self, ctx, f"not a decimal number: {ctx.value!r}") from exc
+                return value if datatype.type is decimal.Decimal else datatype.type(value)
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
 
         else:
-- 
2.43.0


From d667e63451126ee502b63765fad7a84469601bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 05/76] fix: accept additional annotations around literal types

---
 databind/src/databind/json/converters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 7ab65c9..87fd306 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -866,14 +866,15 @@ class LiteralConverter(Converter):
     or #None."""
 
     def convert(self, ctx: Context) -> t.Any:
-        if not isinstance(ctx.datatype, LiteralTypeHint):
+        datatype = _unwrap_annotated(ctx.datatype)
+        if not isinstance(datatype, LiteralTypeHint):
             raise NotImplementedError
 
-        if ctx.value not in ctx.datatype.values:
+        if ctx.value not in datatype.values:
             raise ConversionError(
                 self,
                 ctx,
-                f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, ctx.datatype.values))}",
+                f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, datatype.values))}",
             )
 
         return ctx.value
-- 
2.43.0


From 711f28e3bbec16f3f03da5473fccc6c5f15a8361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 06/76] fix: convert plain unions that have unrelated
 annotations

---
 databind/src/databind/json/converters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 87fd306..19e36d0 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -767,6 +767,8 @@ class UnionConverter(Converter):
     def convert(self, ctx: Context) -> t.Any:
         datatype = ctx.datatype
         union: t.Optional[Union]
+        if isinstance(datatype, AnnotatedTypeHint) and ctx.get_setting(Union) is None:
+            datatype = datatype[0]
         if isinstance(datatype, UnionTypeHint):
             if datatype.has_none_type():
                 raise NotImplementedError("unable to handle Union type with None in it")
-- 
2.43.0


From 84266eb8d1b80cd766bc1ff87002dfc42cc05707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:47 +0000
Subject: [PATCH 07/76] fix: delegate to the classmethods of annotated types

---
 databind/src/databind/core/converter.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/converter.py b/databind/src/databind/core/converter.py
index 3696ab9..b98e757 100644
--- a/databind/src/databind/core/converter.py
+++ b/databind/src/databind/core/converter.py
@@ -3,7 +3,7 @@ import logging
 import typing as t
 from textwrap import indent
 
-from typeapi import ClassTypeHint, type_repr
+from typeapi import AnnotatedTypeHint, ClassTypeHint, type_repr
 
 from databind.core.utils import exception_safe_str
 
@@ -166,17 +166,19 @@ class DelegateToClassmethodConverter(Converter):
         self._deserialize = deserialize
 
     def serialize(self, ctx: "Context") -> t.Any:
-        if self._serialize is None or not isinstance(ctx.datatype, ClassTypeHint):
+        datatype = ctx.datatype[0] if isinstance(ctx.datatype, AnnotatedTypeHint) else ctx.datatype
+        if self._serialize is None or not isinstance(datatype, ClassTypeHint):
             raise NotImplementedError
-        if not isinstance(ctx.value, ctx.datatype.type):
-            raise ConversionError.expected(self, ctx, ctx.datatype.type)
-        method: t.Callable[[t.Any], t.Any] = getattr(ctx.datatype.type, self._serialize)
+        if not isinstance(ctx.value, datatype.type):
+            raise ConversionError.expected(self, ctx, datatype.type)
+        method: t.Callable[[t.Any], t.Any] = getattr(datatype.type, self._serialize)
         return method(ctx.value)
 
     def deserialize(self, ctx: "Context") -> t.Any:
-        if self._deserialize is None or not isinstance(ctx.datatype, ClassTypeHint):
+        datatype = ctx.datatype[0] if isinstance(ctx.datatype, AnnotatedTypeHint) else ctx.datatype
+        if self._deserialize is None or not isinstance(datatype, ClassTypeHint):
             raise NotImplementedError
         if self._serialized_type is not None and not isinstance(ctx.value, self._serialized_type):
             raise ConversionError.expected(self, ctx, self._serialized_type)
-        method: t.Callable[[t.Any], t.Any] = getattr(ctx.datatype.type, self._deserialize)
+        method: t.Callable[[t.Any], t.Any] = getattr(datatype.type, self._deserialize)
         return method(ctx.value)
-- 
2.43.0


From a53194c11e075bf36d4ddbd2c0d3e65325e03ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 08/76] fix: write nested unions under their nesting key

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 19e36d0..c04245e 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -847,7 +847,7 @@ class UnionConverter(Converter):
             self._check_style_compatibility(ctx, style, result)
             # Bring the serialized value into shape.
             if style == Union.NESTED:
-                result = {discriminator_key: member_name, member_name: result}
+                result = {discriminator_key: member_name, nesting_key: result}
             elif style == Union.FLAT:
                 assert isinstance(result, t.MutableMapping), type(result)
                 result[discriminator_key] = member_name
-- 
2.43.0


From eb50d335c2a52567d3084fdcd7a651e27c05b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 09/76] fix: report unknown union members and non-string keys
 as ConversionError

---
 databind/src/databind/json/converters.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c04245e..75d2abf 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -753,7 +753,8 @@ class UnionConverter(Converter):
                     self, ctx, f"expected exactly one key to act as the discriminator, got {len(value)} key(s)"
                 )
             member_name = next(iter(value))
-            assert isinstance(member_name, str)
+            if not isinstance(member_name, str):
+                raise ConversionError(self, ctx, f"expected a string as the discriminator, got {member_name!r}")
         else:
             raise ConversionError(self, ctx, f"unsupported Union.style: {style!r}")
 
@@ -809,12 +810,14 @@ class UnionConverter(Converter):
             if not isinstance(ctx.value, t.Mapping):
                 raise ConversionError.expected(self, ctx, t.Mapping)
             member_name = self._get_deserialize_member_name(ctx, ctx.value, style, discriminator_key)
-            member_type = union.members.get_type_by_id(member_name)
 
-        else:
-            # Identify the member type based on the Python value type.
-            member_name = union.members.get_type_id(type(ctx.value))
+        try:
+            if not is_deserialize:
+                # Identify the member type based on the Python value type.
+                member_name = union.members.get_type_id(type(ctx.value))
             member_type = union.members.get_type_by_id(member_name)
+        except ValueError as exc:
+            raise ConversionError(self, ctx, str(exc)) from exc
 
         nesting_key = union.nesting_key or member_name
         type_hint = TypeHint(member_type) if not isinstance(member_type, TypeHint) else member_type
-- 
2.43.0


From 1faec994dc12d352665b4a888836dfe9dd1f28ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 10/76] fix: report types that cannot be imported as ValueError

---
 databind/src/databind/core/union.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 95bb90d..0f83a2a 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -181,7 +181,12 @@ class ImportUnionMembers(UnionMembers):
         parts = type_id.split(".")
         offset = 1
         module_name = parts[0]
-        module = importlib.import_module(module_name)
+        try:
+            module = importlib.import_module(module_name)
+        except ModuleNotFoundError as exc:
+            if exc.name != module_name:
+                raise
+            raise ValueError(f"{type_id!r} does not point to a type ({exc})") from exc
 
         # Import as many modules as we can.
         for offset, part in enumerate(parts[offset:], offset):
@@ -197,7 +202,10 @@ class ImportUnionMembers(UnionMembers):
         # Read the class.
         target = module
         for offset, part in enumerate(parts[offset:], offset):
-            target = getattr(target, part)
+            try:
+                target = getattr(target, part)
+            except AttributeError as exc:
+                raise ValueError(f"{type_id!r} does not point to a type ({exc})") from exc
 
         if not isinstance(target, type):  # type: ignore[unreachable]
             raise ValueError(f"{type_id!r} does not point to a type (got {type(target).__name__} instead)")
-- 
2.43.0


From e3c04efb467435285fb4a6e3a07172b7e568d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 11/76] fix: list whole type IDs of chained union members

---
 databind/src/databind/core/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 0f83a2a..42a0e2d 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -253,4 +253,4 @@ class ChainUnionMembers(UnionMembers):
                 except NotImplementedError:
                     pass
 
-        return Stream(_gen()).concat().distinct().collect()
+        return Stream(_gen()).distinct().collect()
-- 
2.43.0


From 60d1de1c6597d83e6e7c9186e28f6e89f7920124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 12/76] fix: do not add class decorator settings to the base
 class

---
 databind/src/databind/core/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 5777529..09bbe46 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -176,7 +176,7 @@ class ClassDecoratorSetting(Setting):
             raise RuntimeError("cannot decorate multiple types with the same setting instance")
 
         self.bound_to = type_
-        settings = getattr(type_, "__databind_settings__", None)
+        settings = vars(type_).get("__databind_settings__")
         if settings is None:
             settings = []
             setattr(type_, "__databind_settings__", settings)
-- 
2.43.0


From 4e620d46ebc86873821aa58f174bc2d58cb01396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 13/76] fix: allow a remainder field to be omitted when
 serializing

---
 databind/src/databind/json/converters.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 75d2abf..bd19c0a 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -535,8 +535,7 @@ class SchemaConverter(Converter):
                     else:
                         result[alias] = value
 
-        if remainder_field:
-            assert remainder_values is not None
+        if remainder_values is not None:
             duplicate_keys = result.keys() & remainder_values.keys()
             if duplicate_keys:
                 raise ConversionError(
-- 
2.43.0


From d166dfeb88604efdede0ed289a72def8a4087751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 14/76] fix: render context traces with any kind of mapping key

---
 databind/src/databind/core/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/context.py b/databind/src/databind/core/context.py
index 7248791..fd238f6 100644
--- a/databind/src/databind/core/context.py
+++ b/databind/src/databind/core/context.py
@@ -150,7 +150,7 @@ def format_context_trace(ctx: Context) -> str:
         elif ctx.key is None:
             key = "^"
         else:
-            raise TypeError(f"encountered unexpected type in Context.key: {ctx.key.__class__.__name__!r}")
+            key = f"[{ctx.key!r}]"
 
         line = f"  {key}: {ctx.datatype}"
         if ctx.location.line or ctx.location.column:
-- 
2.43.0


From e5703406c2e3235ea8f3c20b03f51fecd5f55ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 15/76] fix: do not mix up the directions of bytes conversions

---
 databind/src/databind/json/converters.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index bd19c0a..7e26197 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -390,7 +390,7 @@ class PlainDatatypeConverter(Converter):
 
     # Map for (source_type, target_type)
     _strict_adapters: t.Dict[t.Tuple[type, type], t.Callable[[t.Any], t.Any]] = {
-        (bytes, bytes): lambda d: base64.b64encode(d).decode("ascii"),
+        (bytes, bytes): bytes,
         (str, bytes): base64.b64decode,
         (str, str): str,
         (int, int): int,
@@ -400,6 +400,11 @@ class PlainDatatypeConverter(Converter):
         (bool, bool): bool,
     }
 
+    # Used only during serialization.
+    _serialize_adapters = _strict_adapters.copy()
+    _serialize_adapters[(bytes, bytes)] = lambda d: base64.b64encode(d).decode("ascii")
+    del _serialize_adapters[(str, bytes)]
+
     # Used only during deserialization if the #fieldinfo.strict is disabled.
     _nonstrict_adapters = _strict_adapters.copy()
     _nonstrict_adapters.update(
@@ -425,12 +430,12 @@ class PlainDatatypeConverter(Converter):
 
         source_type = type(ctx.value)
         target_type = datatype.type
-        strict = (
-            (ctx.get_setting(Strict) or Strict(self.strict_by_default))
-            if ctx.direction == Direction.DESERIALIZE
-            else Strict(True)
-        )
-        adapters = self._strict_adapters if strict.enabled else self._nonstrict_adapters
+        if ctx.direction == Direction.SERIALIZE:
+            adapters = self._serialize_adapters
+        elif (ctx.get_setting(Strict) or Strict(self.strict_by_default)).enabled:
+            adapters = self._strict_adapters
+        else:
+            adapters = self._nonstrict_adapters
         adapter = adapters.get((source_type, target_type))
 
         if adapter is None:
-- 
2.43.0


From 594e9e8c579d3bc4f37845a15ec34d6ae8996230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 16/76] fix: reject text that is not base64 instead of skipping
 parts of it

---
 databind/src/databind/json/converters.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 7e26197..d196b3f 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -57,6 +57,12 @@ def _bool_from_str(s: str) -> bool:
     raise ValueError(f"not a truthy keyword: {s!r}")
 
 
+def _bytes_from_str(s: str) -> bytes:
+    """Decodes the base64 text *s*, ignoring only whitespace (such as line breaks) in it."""
+
+    return base64.b64decode("".join(s.split()), validate=True)
+
+
 def _unwrap_annotated(hint: TypeHint) -> TypeHint:
     if isinstance(hint, AnnotatedTypeHint):
         return hint[0]
@@ -391,7 +397,7 @@ class PlainDatatypeConverter(Converter):
     # Map for (source_type, target_type)
     _strict_adapters: t.Dict[t.Tuple[type, type], t.Callable[[t.Any], t.Any]] = {
         (bytes, bytes): bytes,
-        (str, bytes): base64.b64decode,
+        (str, bytes): _bytes_from_str,
         (str, str): str,
         (int, int): int,
         (float, float): float,
-- 
2.43.0


From d56a2f10b206a8e98feb4d94388729c18aa50f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 17/76] fix: derive the schema of TypedDicts from their own
 keys in declaration order

---
 databind/src/databind/core/schema.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index dafd295..511bb10 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -300,14 +300,15 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
 
     annotations = get_annotations(t.cast(type, typed_dict))
     fields: t.Dict[str, Field] = {}
-    for key in typed_dict.__required_keys__ | typed_dict.__optional_keys__:
+    for key in annotations:
         field_hint = TypeHint(annotations[key]).evaluate(eval_context)
 
-        has_default = hasattr(typed_dict, key)
+        # NOTE: Every TypedDict type inherits the attributes of #dict, those are not defaults.
+        has_default = key in vars(typed_dict)
         required = _is_required(field_hint, not has_default)
         fields[key] = Field(
             datatype=field_hint,
-            required=required and typed_dict.__total__,
+            required=required and key in typed_dict.__required_keys__,
             default=getattr(typed_dict, key) if has_default else None if not required else NotSet.Value,
             flattened=_is_flat(field_hint, False),
         )
-- 
2.43.0


From eccd964d1755633bd08fd06e714d2e0aa01851ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 18/76] fix: convert TypedDicts by their schema instead of as
 mappings

---
 databind/src/databind/json/converters.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index d196b3f..62b19f2 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -12,6 +12,7 @@ from typeapi import (
     TypeHint,
     UnionTypeHint,
     get_annotations,
+    is_typed_dict,
     type_repr,
 )
 
@@ -337,6 +338,9 @@ class MappingConverter(Converter):
         # Find the key and value types of the mapping.
         if not isinstance(datatype, ClassTypeHint) or not issubclass(datatype.type, t.Mapping):
             raise NotImplementedError
+        # TypedDicts are a lot like data classes, we leave them to the SchemaConverter.
+        if is_typed_dict(datatype.type):
+            raise NotImplementedError
         candidates = set()
         for current in datatype.recurse_bases():
             if issubclass(current.type, t.Mapping) and len(current.args) == 2:
@@ -493,17 +497,16 @@ class SchemaConverter(Converter):
             is_instance = isinstance(ctx.value, schema.type)
         except TypeError:
             # The type may not support isinstance() checks (e.g. typing.TypedDict).
-            pass
-        else:
-            if not is_instance:
-                raise ConversionError.expected(self, ctx, schema.type)
+            is_instance = isinstance(ctx.value, t.Mapping)
+        if not is_instance:
+            raise ConversionError.expected(self, ctx, schema.type)
 
         serialize_defaults = (ctx.get_setting(SerializeDefaults) or SerializeDefaults(self.serialize_defaults)).enabled
         result = self.json_mapping_type()
 
         def _get_field_value(field_name: str, field: Field) -> t.Any:
             if isinstance(ctx.value, t.Mapping):
-                return ctx.value[field_name]  # TODO (@NiklasRosenstein): Respect non-required fields
+                return ctx.value[field_name]
             else:
                 return getattr(ctx.value, field_name)
 
@@ -511,6 +514,10 @@ class SchemaConverter(Converter):
         remainder_values: t.Optional[t.Mapping[str, t.Any]] = None
 
         for field_name, field in schema.fields.items():
+            if isinstance(ctx.value, t.Mapping) and field_name not in ctx.value:
+                if field.required:
+                    raise ConversionError(self, ctx, f"missing required field: {field_name!r}")
+                continue
             field_ctx = ctx.spawn(_get_field_value(field_name, field), field.datatype, field_name)
             remainder = field_ctx.get_setting(Remainder)
             if remainder and remainder.enabled:
-- 
2.43.0


From 3c274f63941ce052d59ad6f86061556c4692c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 19/76] fix: fill the entry point cache before publishing it

---
 databind/src/databind/core/union.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 42a0e2d..e852b74 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -140,9 +140,8 @@ class EntrypointUnionMembers(UnionMembers):
     @property
     def _entrypoints(self) -> t.Dict[str, EntryPoint]:
         if self._entrypoints_cache is None:
-            self._entrypoints_cache = {}
-            for ep in iter_entry_points(self.group):
-                self._entrypoints_cache[ep.name] = ep
+            # NOTE: The cache may be read from another thread at any time, so it must be complete when it is assigned.
+            self._entrypoints_cache = {ep.name: ep for ep in iter_entry_points(self.group)}
         return self._entrypoints_cache
 
     def get_type_id(self, type_: t.Any) -> str:
-- 
2.43.0


From 59d2f4735fb9e43a9882440d50c0c2ede07e79ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:05 +0000
Subject: [PATCH 20/76] fix: evaluate a lazy union member again after it was
 replaced

---
 databind/src/databind/core/union.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index e852b74..a74bd12 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -88,7 +88,8 @@ class StaticUnionMembers(UnionMembers):
     members: _MembersDictType = dataclasses.field(default_factory=dict)
 
     def __post_init__(self) -> None:
-        self._eval_cache: t.Dict[str, StaticUnionMembers._TypeType] = {}
+        # Maps the type ID to the provider function that was evaluated and its result.
+        self._eval_cache: t.Dict[str, t.Tuple[t.Any, StaticUnionMembers._TypeType]] = {}
 
     def get_type_id(self, type_: t.Any) -> str:
         for type_id in self.members:
@@ -102,18 +103,16 @@ class StaticUnionMembers(UnionMembers):
         raise ValueError(f"type {type_} is not a member of {self}")
 
     def get_type_by_id(self, type_id: str) -> t.Any:
-        try:
-            return self._eval_cache[type_id]
-        except KeyError:
-            pass
-
         try:
             member = self.members[type_id]
         except KeyError:
             raise ValueError(f"{type_id!r} is not a type ID of {self}")
 
         if isinstance(member, types.FunctionType):
-            member = self._eval_cache[type_id] = member()
+            cached = self._eval_cache.get(type_id)
+            if cached is None or cached[0] is not member:
+                cached = self._eval_cache[type_id] = (member, member())
+            return cached[1]
 
         return member
 
-- 
2.43.0


From 359512c3900cca9c3c18c602310e8f0860b4532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 21/76] fix: parse strings as the declared type in
 StringifyConverter

---
 databind/src/databind/json/converters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 62b19f2..da865b6 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -656,7 +656,7 @@ class StringifyConverter(Converter):
     ) -> None:
         assert isinstance(type_, type), type_
         self.type_ = type_
-        self.parser: t.Callable[[str], T] = parser or type_
+        self.parser = parser
         self.formatter = formatter
         self.name = name
 
@@ -665,7 +665,7 @@ class StringifyConverter(Converter):
             return f"StringifyConverter(name={self.name!r})"
         else:
             return (
-                f"StringifyConverter(type={type_repr(self.type_)}, parser={self.parser!r}, "
+                f"StringifyConverter(type={type_repr(self.type_)}, parser={self.parser or self.type_!r}, "
                 f"formatter={self.formatter!r})"
             )
 
@@ -678,7 +678,7 @@ class StringifyConverter(Converter):
             if not isinstance(ctx.value, str):
                 raise ConversionError.expected(self, ctx, str)
             try:
-                return self.parser(ctx.value)
+                return (self.parser or datatype.type)(ctx.value)
             except (TypeError, ValueError) as exc:
                 raise ConversionError(self, ctx, str(exc))
 
-- 
2.43.0


From cc41f2ae9b7af8818fc49df07832751819dc799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:10 +0000
Subject: [PATCH 22/76] fix: skip date formats that do not apply and report
 values none applies to

---
 databind/src/databind/core/settings.py   | 17 +++++++++++------
 databind/src/databind/json/converters.py |  5 ++++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 09bbe46..d6d2509 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -581,7 +581,11 @@ class DateFormat(Setting):
                 if fmt.startswith("."):
                     yield self.__get_builtin_format(fmt)
                 else:
-                    yield type_.compile(fmt)  # type: ignore
+                    try:
+                        yield type_.compile(fmt)  # type: ignore
+                    except ValueError:
+                        # The format string is not applicable to this type of date/time value.
+                        pass
             elif type(fmt) is type_:
                 yield fmt
             elif isinstance(fmt, format_set):
@@ -631,11 +635,12 @@ class DateFormat(Setting):
         from nr.date import date_format, datetime_format, time_format
 
         format_t: t.Type[DateFormat.Formatter]
-        format_t, method_name = {  # type: ignore
-            datetime.date: (date_format, "format_date"),
-            datetime.time: (time_format, "format_time"),
-            datetime.datetime: (datetime_format, "format_datetime"),
-        }[type(dt)]
+        if isinstance(dt, datetime.datetime):
+            format_t, method_name = datetime_format, "format_datetime"
+        elif isinstance(dt, datetime.date):
+            format_t, method_name = date_format, "format_date"
+        else:
+            format_t, method_name = time_format, "format_time"
         for fmt in self.__iter_formats(format_t):
             try:
                 return t.cast(str, getattr(fmt, method_name)(dt))
diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index da865b6..26d8a67 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -224,7 +224,10 @@ class DatetimeConverter(Converter):
         else:
             if not isinstance(ctx.value, date_type):
                 raise ConversionError.expected(self, ctx, date_type, type(ctx.value))
-            return datefmt.format(ctx.value)  # type: ignore[type-var]
+            try:
+                return datefmt.format(ctx.value)  # type: ignore[type-var]
+            except ValueError as exc:
+                raise ConversionError(self, ctx, str(exc)) from exc
 
 
 class DecimalConverter(Converter):
-- 
2.43.0


From dff45608a13ee73ae157a55db28c3fefad19fd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 23/76] fix: apply the settings annotated on an optional type
 to the type inside

---
 databind/src/databind/json/converters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 26d8a67..d724896 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -4,6 +4,7 @@ import decimal
 import enum
 import typing as t
 
+import typing_extensions as te
 from typeapi import (
     AnnotatedTypeHint,
     ClassTypeHint,
@@ -386,7 +387,11 @@ class OptionalConverter(Converter):
             raise NotImplementedError
         if ctx.value is None:
             return None
-        return ctx.spawn(ctx.value, datatype.without_none_type(), None).convert()
+        inner: t.Any = datatype.without_none_type()
+        if isinstance(ctx.datatype, AnnotatedTypeHint):
+            # The annotations are meant for the type that remains.
+            inner = te.Annotated[(inner.hint, *ctx.datatype.metadata)]  # type: ignore[misc]
+        return ctx.spawn(ctx.value, inner, None).convert()
 
 
 class PlainDatatypeConverter(Converter):
-- 
2.43.0


From 0c883a6a4ec6f02eca6352c941216293851f59ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 24/76] fix: report colliding keys of flattened fields as
 ConversionError

---
 databind/src/databind/json/converters.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index d724896..c17f0c6 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -521,6 +521,13 @@ class SchemaConverter(Converter):
         remainder_field: t.Optional[t.Tuple[str, Field]] = None
         remainder_values: t.Optional[t.Mapping[str, t.Any]] = None
 
+        def _check_collisions(field_name: str, keys: t.Iterable[str]) -> None:
+            duplicate_keys = result.keys() & set(keys)
+            if duplicate_keys:
+                raise ConversionError(
+                    self, ctx, f"keys of field {field_name!r} collide with other fields in the schema: {duplicate_keys}"
+                )
+
         for field_name, field in schema.fields.items():
             if isinstance(ctx.value, t.Mapping) and field_name not in ctx.value:
                 if field.required:
@@ -545,7 +552,7 @@ class SchemaConverter(Converter):
                         f"field {field_name!r} is flattened but its serialized form is not "
                         f"a mapping (got {type(value).__name__!r})",
                     )
-                assert result.keys().isdisjoint(value.keys()), result.keys() & value.keys()
+                _check_collisions(field_name, value)
                 result.update(value)
             else:
                 if serialize_defaults or not field.has_default() or field_ctx.value != field.get_default():
@@ -559,6 +566,7 @@ class SchemaConverter(Converter):
                             )
                         remainder_values = value
                     else:
+                        _check_collisions(field_name, [alias])
                         result[alias] = value
 
         if remainder_values is not None:
-- 
2.43.0


From 7f4a788889f551b2a23a2a316177e17380e87b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 25/76] fix: keep the order of the payload in the remainder
 field

---
 databind/src/databind/json/converters.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c17f0c6..b380c8c 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -638,15 +638,14 @@ class SchemaConverter(Converter):
 
         # TODO(@NiklasRosenstein): Support deserializing as a type different than what is defined in the schema.
 
-        unused_keys = source.keys() - used_keys
+        remainders = {k: v for k, v in source.items() if k not in used_keys}
         if remainder_field:
-            remainders = {k: ctx.value[k] for k in unused_keys}
             result[remainder_field[0]] = ctx.spawn(
                 remainders, remainder_field[1].datatype, remainder_field[0]
             ).convert()
-        elif unused_keys:
+        elif remainders:
             extra_keys = ctx.get_setting(ExtraKeys) or ExtraKeys(False)
-            extra_keys.inform(self, ctx, unused_keys)
+            extra_keys.inform(self, ctx, set(remainders))
 
         return schema.constructor(**result)
 
-- 
2.43.0


From 8a33ecade61ed05917fa199447502a48270cdfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 26/76] fix: read the remainder field of a flattened structure

---
 databind/src/databind/json/converters.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index b380c8c..0ac67cd 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -622,10 +622,16 @@ class SchemaConverter(Converter):
 
         result = {}
         expanded = get_fields_expanded(schema)
+        flattened: t.Dict[str, t.Dict[str, t.Any]] = {}
+        remainder_owner: t.Optional[str] = None
         for field_name, field in schema.fields.items():
             if field.flattened:
                 assert field_name in expanded, field_name
-                value = ctx.spawn(_extract_fields(expanded[field_name]), field.datatype, field_name).convert()
+                known_remainder_field = remainder_field
+                flattened[field_name] = _extract_fields(expanded[field_name])
+                if remainder_field is not known_remainder_field:
+                    remainder_owner = field_name
+                continue
             else:
                 container = _extract_field({}, field_name, field, False)
                 if not container:
@@ -639,7 +645,14 @@ class SchemaConverter(Converter):
         # TODO(@NiklasRosenstein): Support deserializing as a type different than what is defined in the schema.
 
         remainders = {k: v for k, v in source.items() if k not in used_keys}
-        if remainder_field:
+        if remainder_owner is not None:
+            # The remainder field is part of a flattened structure, which will find these in its own payload.
+            flattened[remainder_owner].update(remainders)
+            remainders = {}
+        for field_name, values in flattened.items():
+            result[field_name] = ctx.spawn(values, schema.fields[field_name].datatype, field_name).convert()
+
+        if remainder_field and remainder_owner is None:
             result[remainder_field[0]] = ctx.spawn(
                 remainders, remainder_field[1].datatype, remainder_field[0]
             ).convert()
-- 
2.43.0


From 4c928dd5555a2a93203f478b10a000485edd9088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 27/76] fix: derive field origins from the fields the dataclass
 constructor uses

---
 databind/src/databind/core/schema.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 511bb10..ef0250c 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -181,15 +181,14 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
     # forward references in field annotations; we can't just use the target
     # dataclass if it was defined in a different module.
     field_origin: t.Dict[str, type] = {}
-    base_queue = [hint.type]
-    while base_queue:
-        base_type = base_queue.pop(0)
-        if dataclasses.is_dataclass(base_type):
+    field_by_name = {field.name: field for field in dataclasses.fields(hint.type)}
+    for base_type in hint.type.__mro__:
+        # Subclasses of a dataclass that are not decorated themselves do not define any fields.
+        if "__dataclass_fields__" in vars(base_type):
             annotations = get_annotations(base_type)
             for field in dataclasses.fields(base_type):
-                if field.name in annotations and field.name not in field_origin:
-                    field_origin[field.name] = base_type
-        base_queue += base_type.__bases__
+                if field.name in annotations and field is field_by_name.get(field.name):
+                    field_origin.setdefault(field.name, base_type)
 
     # Retrieve the context in which type hints from each field origin type need to be
     # evaluated.
@@ -217,7 +216,7 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
                 if field.name in fields:
                     # Subclasses override their parent's fields.
                     continue
-                if field_origin[field.name] != hint.type:
+                if field_origin.get(field.name) != hint.type:
                     # If this field does not belong to the current type
                     continue
 
-- 
2.43.0


From 1f6b9c7eade2e58a27ef82a6ab3dff3e029db78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 28/76] fix: reject flag combinations that are not a member of
 the enumeration

---
 databind/src/databind/json/converters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 0ac67cd..74035a4 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -304,6 +304,8 @@ class EnumConverter(Converter):
             if issubclass(enum_type, enum.IntEnum):
                 return value.value
             if issubclass(enum_type, enum.Enum):
+                if value.name not in enum_type.__members__:
+                    raise ConversionError(self, ctx, f"{value!r} is not a member of enumeration {datatype}")
                 alias = self._discover_alias(enum_type, value.name)
                 if alias and alias.aliases:
                     return alias.aliases[0]
-- 
2.43.0


From c71814f90167df25e8137e6324fae242539702dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 29/76] fix: read abstract set types as sets

---
 databind/src/databind/json/converters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 74035a4..c702af5 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -2,6 +2,7 @@ import base64
 import datetime
 import decimal
 import enum
+import inspect
 import typing as t
 
 import typing_extensions as te
@@ -172,6 +173,9 @@ class CollectionConverter(Converter):
             elif hasattr(python_type, "_fields"):  # For collections.namedtuple
                 return python_type(*values)
 
+            if inspect.isabstract(python_type) and issubclass(python_type, t.AbstractSet):
+                python_type = set
+
             try:
                 return python_type(values)
             except TypeError:
-- 
2.43.0


From 868170d5e337a297ef636fc00c86003e187c7925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 30/76] fix: respect the defaults of NamedTuple fields

---
 databind/src/databind/json/converters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c702af5..e61d348 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -38,6 +38,7 @@ from databind.core import (
     get_annotation_setting,
     get_fields_expanded,
 )
+from databind.core.utils import NotSet
 
 T = t.TypeVar("T")
 
@@ -104,12 +105,15 @@ class CollectionConverter(Converter):
             and issubclass(datatype.type, tuple)
             and getattr(datatype.type, "__annotations__", None)
         ):
+            defaults = getattr(datatype.type, "_field_defaults", {})
             schema = Schema(
                 fields={
                     name: Field(
                         # We need to evaluate the type hint to remove forward references. The source is needed to
                         # understand the context in which forward references must be evaluated.
                         datatype=TypeHint(type_, source=datatype.type).evaluate(),
+                        required=name not in defaults,
+                        default=defaults.get(name, NotSet.Value),
                     )
                     for name, type_ in getattr(datatype.type, "__annotations__").items()
                 },
-- 
2.43.0


From 68a3a6728528b201c90a74e7cad8e6a9c61a507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 31/76] fix: handle ClassVar, InitVar, init=False and slots in
 the dataclass extension

---
 databind/src/databind/core/dataclasses.py | 25 ++++++++++++-----------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index ef61477..9a1a60d 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -56,24 +56,23 @@ def _field_has_default(field: Field) -> bool:
 def _process_class(cls, **kwargs):
     # Collect a list of the fields that have no default values but follow after a default argument.
     no_default_fields: t.List[str] = []
-    existing_fields = getattr(cls, "__dataclass_fields__", {})  # For subclasses of dataclasses
-    annotations = getattr(cls, "__annotations__", {})
     if "__annotations__" not in cls.__dict__:
         # Make sure that __annotations__ exists on the class itself.
-        cls.__annotations__ = annotations
+        cls.__annotations__ = {}
+    annotations = cls.__annotations__
 
     # Make sure each annotated field actually has a #Field. For fields without
     # defaults, we will set #Field.default to #NotSet.Value so we can later
     # check if the field was set in __post_init__().
     for key in annotations.keys():
         if not hasattr(cls, key):
-            f = existing_fields.get(key, field())
+            f = field()
             setattr(cls, key, f)
         else:
             f = getattr(cls, key)
             if not isinstance(f, Field):
                 continue
-        if not _field_has_default(f):
+        if f.init and not _field_has_default(f):
             # This prevents a SyntaxError if non-default arguments follow default arguments.
             f.default = NotSet.Value
             no_default_fields.append(key)
@@ -81,13 +80,15 @@ def _process_class(cls, **kwargs):
     # Override the `__post_init__` method that is called by the dataclass `__init__`.
     orig_postinit = getattr(cls, "__post_init__", None)
 
-    def __post_init__(self):
-        # Ensure that no field has a "uninitialized" value.
-        for key in self.__dataclass_fields__.keys():
-            if getattr(self, key) == NotSet.Value:
-                raise TypeError(f"missing required argument {key!r}")
+    def __post_init__(self, *init_vars):
+        # Ensure that no field and no init-only variable has a "uninitialized" value.
+        for f in fields(self):
+            if f.init and getattr(self, f.name) is NotSet.Value:
+                raise TypeError(f"missing required argument {f.name!r}")
+        if any(value is NotSet.Value for value in init_vars):
+            raise TypeError("missing required argument for an InitVar field")
         if orig_postinit:
-            orig_postinit(self)
+            orig_postinit(self, *init_vars)
 
     cls.__post_init__ = __post_init__
 
@@ -97,7 +98,7 @@ def _process_class(cls, **kwargs):
     # After setting #Field.default for non-default fields, the default will be propagated
     # on the class level, so we delete that again from the class.
     for key in no_default_fields:
-        if key in no_default_fields:
+        if cls.__dict__.get(key) is NotSet.Value:
             delattr(cls, key)
 
     return cls
-- 
2.43.0


From 76146175600c3030924cba750edbf0cd9f1163ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 32/76] fix: do not serialize strings, bytes and mappings as
 collections

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e61d348..5f91a8a 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -162,7 +162,7 @@ class CollectionConverter(Converter):
                 yield ctx.spawn(val, item_type, idx).convert()
 
         if ctx.direction == Direction.SERIALIZE:
-            if not isinstance(ctx.value, python_type):
+            if not isinstance(ctx.value, python_type) or isinstance(ctx.value, self._FORBIDDEN_COLLECTIONS):
                 raise ConversionError.expected(self, ctx, python_type)
             _length_check()
             return self.json_collection_type(_convert_values())  # type: ignore[call-arg]
-- 
2.43.0


From 6666c0dc9f6a690bd089605a4193b884b6f5bb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 33/76] fix: accept annotations with unhashable metadata in
 collections and mappings

---
 databind/src/databind/json/converters.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 5f91a8a..0160373 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -141,16 +141,18 @@ class CollectionConverter(Converter):
                     )
 
         else:
-            candidates = set()
+            # NOTE: The types may be unhashable due to the metadata in annotations.
+            candidates: t.List[t.Any] = []
             for current in datatype.recurse_bases():
                 if issubclass(current.type, t.Collection) and len(current.args) == 1:
-                    candidates.add(current.args[0])
+                    if current.args[0] not in candidates:
+                        candidates.append(current.args[0])
             if len(candidates) == 0:
                 raise ConversionError(self, ctx, f"could not find item type in {datatype}")
             elif len(candidates) > 1:
                 raise ConversionError(self, ctx, f"found multiple item types in {datatype}: {candidates}")
 
-            item_type = TypeHint(next(iter(candidates)))
+            item_type = TypeHint(candidates[0])
             item_types_iterator = iter(lambda: item_type, None)
             python_type = datatype.type
 
@@ -355,16 +357,18 @@ class MappingConverter(Converter):
         # TypedDicts are a lot like data classes, we leave them to the SchemaConverter.
         if is_typed_dict(datatype.type):
             raise NotImplementedError
-        candidates = set()
+        # NOTE: The types may be unhashable due to the metadata in annotations.
+        candidates: t.List[t.Any] = []
         for current in datatype.recurse_bases():
             if issubclass(current.type, t.Mapping) and len(current.args) == 2:
-                candidates.add(current.args)
+                if current.args not in candidates:
+                    candidates.append(current.args)
         if len(candidates) == 0:
             raise ConversionError(self, ctx, f"could not find key/value type in {datatype}")
         elif len(candidates) > 1:
             raise ConversionError(self, ctx, f"found multiple key/value types in {datatype}: {candidates}")
 
-        key_type, value_type = next(iter(candidates))
+        key_type, value_type = candidates[0]
 
         if not isinstance(ctx.value, t.Mapping):
             raise ConversionError.expected(self, ctx, t.Mapping)
-- 
2.43.0


From 7e316c5174cc84d750c2749335be3dbf58a20464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 34/76] fix: report unhashable mapping keys as conversion
 errors

---
 databind/src/databind/json/converters.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 0160373..5e13393 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -376,8 +376,12 @@ class MappingConverter(Converter):
         result = {}
         for key, value in ctx.value.items():
             value = ctx.spawn(value, value_type, key).convert()
-            key = ctx.spawn(key, key_type, f"Key({key!r})").convert()
-            result[key] = value
+            key_ctx = ctx.spawn(key, key_type, f"Key({key!r})")
+            key = key_ctx.convert()
+            try:
+                result[key] = value
+            except TypeError as exc:
+                raise ConversionError(self, key_ctx, str(exc)) from exc
 
         if ctx.direction == Direction.DESERIALIZE and datatype.type != dict:
             # We assume that the runtime type is constructible from a plain dictionary.
-- 
2.43.0


From 494017570f43f57cc35b339648860094a0f3a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 35/76] fix: do not evaluate a type checking import in
 Settings.add_conditional()

---
 databind/src/databind/core/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index d6d2509..e377da3 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -70,7 +70,7 @@ class Settings(SettingsProvider):
     def add_conditional(self, predicate: t.Callable[["Context"], bool], setting: "Setting") -> None:
         """Adds a setting conditional on the given *predicate*."""
 
-        def _provider(context: Context) -> t.List[Setting]:
+        def _provider(context: "Context") -> "t.List[Setting]":
             if predicate(context):
                 return [setting]
             return []
-- 
2.43.0


From 19181d994307198e1cba8a70792122e9b8b3830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:30 +0000
Subject: [PATCH 36/76] fix: deserialize flattened fields that share their name
 but not their alias

---
 databind/src/databind/json/converters.py | 27 +++++++++++++++++-------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 5e13393..a5b747b 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -36,7 +36,6 @@ from databind.core import (
     Union,
     convert_to_schema,
     get_annotation_setting,
-    get_fields_expanded,
 )
 from databind.core.utils import NotSet
 
@@ -602,7 +601,7 @@ class SchemaConverter(Converter):
             raise ConversionError.expected(self, ctx, t.Mapping)
 
         source = ctx.value
-        used_keys = set()
+        used_keys: t.Set[str] = set()
         remainder_field: t.Optional[t.Tuple[str, Field]] = None
 
         def _extract_field(
@@ -632,21 +631,33 @@ class SchemaConverter(Converter):
                     raise ConversionError(self, ctx, f"missing required field: {aliases[0]!r}{other_aliases}")
             return result
 
-        def _extract_fields(fields: t.Dict[str, Field]) -> t.Dict[str, t.Any]:
-            result: t.Dict[str, t.Any] = {}
-            for field_name, field in fields.items():
+        def _get_key(field_name: str, field: Field) -> t.Optional[str]:
+            field_ctx = ctx.spawn(None, field.datatype, field_name)
+            remainder = field_ctx.get_setting(Remainder)
+            if remainder and remainder.enabled:
+                return None  # It has no key of its own.
+            return self._get_alias_setting(field_ctx, field_name).aliases[0]
+
+        def _extract_fields(result: t.Dict[str, t.Any], flattened_field: Field) -> t.Dict[str, t.Any]:
+            # NOTE: Fields of different structures may have the same name as long as their keys are different.
+            for field_name, field in self.convert_to_schema(flattened_field.datatype).fields.items():
+                if field.flattened:
+                    _extract_fields(result, field)
+                    continue
+                key = _get_key(field_name, field)
+                if key is not None and key in own_keys:
+                    raise ConversionError(self, ctx, f"field {field_name!r} occurs multiple times")
                 _extract_field(result, field_name, field, True)
             return result
 
+        own_keys = {_get_key(name, field) for name, field in schema.fields.items() if not field.flattened}
         result = {}
-        expanded = get_fields_expanded(schema)
         flattened: t.Dict[str, t.Dict[str, t.Any]] = {}
         remainder_owner: t.Optional[str] = None
         for field_name, field in schema.fields.items():
             if field.flattened:
-                assert field_name in expanded, field_name
                 known_remainder_field = remainder_field
-                flattened[field_name] = _extract_fields(expanded[field_name])
+                flattened[field_name] = _extract_fields({}, field)
                 if remainder_field is not known_remainder_field:
                     remainder_owner = field_name
                 continue
-- 
2.43.0


From ac6b9baf14cf79684ce3dc8cb1439f32e262794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:32 +0000
Subject: [PATCH 37/76] fix: report flattened fields that are not structures as
 conversion errors

---
 databind/src/databind/json/converters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index a5b747b..ef0429e 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -640,7 +640,11 @@ class SchemaConverter(Converter):
 
         def _extract_fields(result: t.Dict[str, t.Any], flattened_field: Field) -> t.Dict[str, t.Any]:
             # NOTE: Fields of different structures may have the same name as long as their keys are different.
-            for field_name, field in self.convert_to_schema(flattened_field.datatype).fields.items():
+            try:
+                flattened_schema = self.convert_to_schema(flattened_field.datatype)
+            except ValueError as exc:
+                raise ConversionError(self, ctx, f"field cannot be flattened: {exc}")
+            for field_name, field in flattened_schema.fields.items():
                 if field.flattened:
                     _extract_fields(result, field)
                     continue
-- 
2.43.0


From 87cf7c35a5dd11fb1ed89fe0077491a0f3d72b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 38/76] fix: register a union member under an explicit empty
 name

---
 databind/src/databind/core/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index a74bd12..c186bdd 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -121,7 +121,7 @@ class StaticUnionMembers(UnionMembers):
 
     def register(self, name: t.Optional[str] = None) -> t.Callable[[t.Type[T]], t.Type[T]]:
         def _decorator(type_: t.Type[T]) -> t.Type[T]:
-            self.members[name or type_.__name__] = type_
+            self.members[type_.__name__ if name is None else name] = type_
             return type_
 
         return _decorator
-- 
2.43.0


From cce7168cb688d90e4eb5cfcdbe8a224aad20cacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 39/76] fix: do not look up the last part of a module name in
 that module in ImportUnionMembers

---
 databind/src/databind/core/union.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index c186bdd..9fd1ec1 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -196,6 +196,8 @@ class ImportUnionMembers(UnionMembers):
                 if sub_module_name in str(exc):
                     break
                 raise
+        else:
+            offset = len(parts)
 
         # Read the class.
         target = module
-- 
2.43.0


From 58bff40ecad67e51c16ca69bc39567f4f16807ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:59 +0000
Subject: [PATCH 40/76] fix: keep the order of union members below annotations
 of an optional type

---
 databind/src/databind/json/converters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index ef0429e..dcc122b 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -5,7 +5,6 @@ import enum
 import inspect
 import typing as t
 
-import typing_extensions as te
 from typeapi import (
     AnnotatedTypeHint,
     ClassTypeHint,
@@ -406,8 +405,9 @@ class OptionalConverter(Converter):
             return None
         inner: t.Any = datatype.without_none_type()
         if isinstance(ctx.datatype, AnnotatedTypeHint):
-            # The annotations are meant for the type that remains.
-            inner = te.Annotated[(inner.hint, *ctx.datatype.metadata)]  # type: ignore[misc]
+            # The annotations are meant for the type that remains. NOTE: Subscripting Annotated goes through a cache
+            # that considers unions which only differ in the order of their members the same.
+            inner = ctx.datatype.hint.copy_with((inner.hint,))
         return ctx.spawn(ctx.value, inner, None).convert()
 
 
-- 
2.43.0


From 4798a3b0a5453a8b6f2c0c3c7ce802c0881a7d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:53 +0000
Subject: [PATCH 41/76] fix: accept the priority of a DateFormat as shown in
 the documentation of Settings

---
 databind/src/databind/core/settings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index e377da3..51d6b16 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -558,10 +558,11 @@ class DateFormat(Setting):
 
     formats: t.Sequence[T_Input]
 
-    def __init__(self, *formats: T_Input) -> None:
+    def __init__(self, *formats: T_Input, priority: Priority = Priority.NORMAL) -> None:
         if not formats:
             raise ValueError("need at least one date format")
         self.formats = formats
+        self.priority = priority
 
     @staticmethod
     def __get_builtin_format(fmt: str) -> Formatter:
-- 
2.43.0


From d554025bdad0b2269c9d084f6bdb631134c6399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:38 +0000
Subject: [PATCH 42/76] fix: keep the fields inherited from a generic dataclass
 whose type parameters are not given

---
 databind/src/databind/core/schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index ef0250c..f7ea439 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -244,7 +244,8 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
             pass
 
         # Continue with the base classes.
-        for base in hint.bases or hint.type.__bases__:
+        # NOTE: A class may inherit the "__orig_bases__" of another one, which are not its own bases.
+        for base in vars(hint.type).get("__orig_bases__") or hint.type.__bases__:
             base_hint = TypeHint(base, source=hint.type).evaluate().parameterize(parameter_map)
             assert isinstance(base_hint, ClassTypeHint), f"nani? {base_hint}"
             if dataclasses.is_dataclass(base_hint.type):
-- 
2.43.0


From 06809f82fb32c6d38d72aa9011e06a197254e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:57 +0000
Subject: [PATCH 43/76] fix: plain unions could not have annotated members

---
 databind/src/databind/json/converters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index dcc122b..8ed754a 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -851,9 +851,9 @@ class UnionConverter(Converter):
         if isinstance(datatype, UnionTypeHint):
             if datatype.has_none_type():
                 raise NotImplementedError("unable to handle Union type with None in it")
-            if not all(isinstance(a, ClassTypeHint) for a in datatype):
+            if not all(isinstance(_unwrap_annotated(a), ClassTypeHint) for a in datatype):
                 raise NotImplementedError(f"members of plain Union must be concrete types: {datatype}")
-            members = {t.cast(ClassTypeHint, a).type.__name__: a for a in datatype}
+            members = {t.cast(ClassTypeHint, _unwrap_annotated(a)).type.__name__: a for a in datatype}
             if len(members) != len(datatype):
                 raise NotImplementedError(f"members of plain Union cannot have overlapping type names: {datatype}")
             union = Union(members, Union.BEST_MATCH)
-- 
2.43.0


From 4476cb0178ddf3addff747e854a1181af64c0d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:37 +0000
Subject: [PATCH 44/76] fix: compare field defaults with MISSING by identity,
 as a default may be equal to anything

---
 databind/src/databind/core/dataclasses.py | 2 +-
 databind/src/databind/core/schema.py      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 9a1a60d..abe80bc 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -50,7 +50,7 @@ ANNOTATIONS_METADATA_KEY = "databind.core.annotations"
 
 
 def _field_has_default(field: Field) -> bool:
-    return any(x != MISSING for x in (field.default, field.default_factory))  # type: ignore
+    return any(x is not MISSING for x in (field.default, field.default_factory))  # type: ignore
 
 
 def _process_class(cls, **kwargs):
diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index f7ea439..fc07d84 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -226,9 +226,9 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
                 #       but we also cannot ignore it because of warn_unused_ignores.
                 _field_default_factory = getattr(field, "default_factory")
 
-                default = NotSet.Value if field.default == MISSING else field.default
-                default_factory = NotSet.Value if _field_default_factory == MISSING else _field_default_factory
-                has_default = default != NotSet.Value or default_factory != NotSet.Value
+                default = NotSet.Value if field.default is MISSING else field.default
+                default_factory = NotSet.Value if _field_default_factory is MISSING else _field_default_factory
+                has_default = default is not NotSet.Value or default_factory is not NotSet.Value
                 required = _is_required(field_hint, not has_default)
 
                 fields[field.name] = Field(
-- 
2.43.0


From 7540d2d77cafea43199a60934952f778f128e519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:58 +0000
Subject: [PATCH 45/76] fix: do not leave a field on the class of the dataclass
 extension for a KW_ONLY marker

---
 databind/src/databind/core/dataclasses.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index abe80bc..4bb5e6e 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -96,9 +96,11 @@ def _process_class(cls, **kwargs):
     cls = dataclasses.dataclass(cls, **kwargs)
 
     # After setting #Field.default for non-default fields, the default will be propagated
-    # on the class level, so we delete that again from the class.
+    # on the class level, so we delete that again from the class. The same goes for the #Field created
+    # for a `KW_ONLY` marker.
     for key in no_default_fields:
-        if cls.__dict__.get(key) is NotSet.Value:
+        value = cls.__dict__.get(key)
+        if value is NotSet.Value or isinstance(value, Field):
             delattr(cls, key)
 
     return cls
-- 
2.43.0


From 4a6520ba7aae34fa2e02e4e01abc038272624f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:02 +0000
Subject: [PATCH 46/76] fix: do not hide the __post_init__ of another base
 class behind a dataclass without one

---
 databind/src/databind/core/dataclasses.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 4bb5e6e..b55e774 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -78,7 +78,7 @@ def _process_class(cls, **kwargs):
             no_default_fields.append(key)
 
     # Override the `__post_init__` method that is called by the dataclass `__init__`.
-    orig_postinit = getattr(cls, "__post_init__", None)
+    orig_postinit = cls.__dict__.get("__post_init__")
 
     def __post_init__(self, *init_vars):
         # Ensure that no field and no init-only variable has a "uninitialized" value.
@@ -88,7 +88,10 @@ def _process_class(cls, **kwargs):
         if any(value is NotSet.Value for value in init_vars):
             raise TypeError("missing required argument for an InitVar field")
         if orig_postinit:
-            orig_postinit(self, *init_vars)
+            orig_postinit.__get__(self, type(self))(*init_vars)
+        elif hasattr(super(cls, self), "__post_init__"):
+            # Not one found on a base class now, as the method resolution order of a subclass may have another.
+            super(cls, self).__post_init__(*init_vars)
 
     cls.__post_init__ = __post_init__
 
-- 
2.43.0


From 233762de01a1cf977b7076a55477aab127044818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:03 +0000
Subject: [PATCH 47/76] fix: inherited constructor of a dataclass with
 init=False raised AttributeError

---
 databind/src/databind/core/dataclasses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index b55e774..75358e4 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -83,7 +83,7 @@ def _process_class(cls, **kwargs):
     def __post_init__(self, *init_vars):
         # Ensure that no field and no init-only variable has a "uninitialized" value.
         for f in fields(self):
-            if f.init and getattr(self, f.name) is NotSet.Value:
+            if f.init and getattr(self, f.name, None) is NotSet.Value:
                 raise TypeError(f"missing required argument {f.name!r}")
         if any(value is NotSet.Value for value in init_vars):
             raise TypeError("missing required argument for an InitVar field")
-- 
2.43.0


From de330dda9c17b65471b871d2aa73e05af4f70e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:05 +0000
Subject: [PATCH 48/76] fix: a slot of a base class was taken for the default
 of a field

---
 databind/src/databind/core/dataclasses.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 75358e4..128010d 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -11,6 +11,7 @@ following default arguments.
 """
 
 import dataclasses
+import types
 import typing as t
 from dataclasses import (
     MISSING,
@@ -65,7 +66,8 @@ def _process_class(cls, **kwargs):
     # defaults, we will set #Field.default to #NotSet.Value so we can later
     # check if the field was set in __post_init__().
     for key in annotations.keys():
-        if not hasattr(cls, key):
+        # The slot of a base class is not a default, either.
+        if not hasattr(cls, key) or isinstance(getattr(cls, key), types.MemberDescriptorType):
             f = field()
             setattr(cls, key, f)
         else:
-- 
2.43.0


From 76ccc08f46bf9dc23b831406289cc7187a829244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:08 +0000
Subject: [PATCH 49/76] fix: derive from a standard dataclass whose fields
 without default would follow one with default

---
 databind/src/databind/core/dataclasses.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 128010d..d5d7b44 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -97,8 +97,22 @@ def _process_class(cls, **kwargs):
 
     cls.__post_init__ = __post_init__
 
+    # Fields inherited from a class that was decorated with the stdlib decorator may follow a default argument, too.
+    inherited_fields = [
+        f
+        for base in cls.__mro__[1:]
+        for f in base.__dict__.get("__dataclass_fields__", {}).values()
+        if f.init and not _field_has_default(f)
+    ]
+    for f in inherited_fields:
+        f.default = NotSet.Value
+
     # Do the stdlib dataclass magic.
-    cls = dataclasses.dataclass(cls, **kwargs)
+    try:
+        cls = dataclasses.dataclass(cls, **kwargs)
+    finally:
+        for f in inherited_fields:
+            f.default = MISSING
 
     # After setting #Field.default for non-default fields, the default will be propagated
     # on the class level, so we delete that again from the class. The same goes for the #Field created
-- 
2.43.0


From a3c77b36b565248dcecf135d8aaeb8c391400650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:09 +0000
Subject: [PATCH 50/76] fix: replace() did not demand a value for init-only
 variables without default

---
 databind/src/databind/core/dataclasses.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index d5d7b44..18fb905 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -23,7 +23,6 @@ from dataclasses import (
     fields,
     is_dataclass,
     make_dataclass,
-    replace,
 )
 
 from databind.core.utils import NotSet
@@ -140,6 +139,19 @@ def dataclass(cls=None, **kwargs):
     return wrap
 
 
+def replace(obj, /, **changes):
+    """
+    A wrapper for #dataclasses.replace() that, like the original, demands a value for init-only variables
+    without default.
+    """
+
+    if not isinstance(obj, type):
+        for f in getattr(obj, "__dataclass_fields__", {}).values():
+            if f._field_type is dataclasses._FIELD_INITVAR and f.default is NotSet.Value and f.name not in changes:
+                raise ValueError(f"InitVar {f.name!r} must be specified with replace()")
+    return dataclasses.replace(obj, **changes)
+
+
 def field(*, annotations=None, metadata=None, **kwargs):
     """
     A wrapper for #dataclasses.field() that accepts an additional "annotations" argument that will
-- 
2.43.0


From 9577d4189a8870b21de725a1f64e3432f0065012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:31 +0000
Subject: [PATCH 51/76] fix: dictionaries of a TypedDict with a mutable default
 shared it

---
 databind/src/databind/core/schema.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index fc07d84..659bb95 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -1,6 +1,8 @@
+import copy
 import dataclasses
 import sys
 import typing as t
+from functools import partial
 
 from typeapi import (
     AnnotatedTypeHint,
@@ -306,10 +308,16 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
         # NOTE: Every TypedDict type inherits the attributes of #dict, those are not defaults.
         has_default = key in vars(typed_dict)
         required = _is_required(field_hint, not has_default)
+        default = getattr(typed_dict, key) if has_default else None if not required else NotSet.Value
+        default_factory: t.Any = NotSet.Value
+        if type(default).__hash__ is None:
+            # Every dictionary needs its own copy of a mutable default.
+            default, default_factory = NotSet.Value, partial(copy.deepcopy, default)
         fields[key] = Field(
             datatype=field_hint,
             required=required and key in typed_dict.__required_keys__,
-            default=getattr(typed_dict, key) if has_default else None if not required else NotSet.Value,
+            default=default,
+            default_factory=default_factory,
             flattened=_is_flat(field_hint, False),
         )
 
-- 
2.43.0


From 5ac5fa2c9da725e34149cb6c700983b0457e29f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:24 +0000
Subject: [PATCH 52/76] fix: two threads could evaluate a lazily given union
 member to different types

---
 databind/src/databind/core/union.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 9fd1ec1..4a4f448 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -111,7 +111,11 @@ class StaticUnionMembers(UnionMembers):
         if isinstance(member, types.FunctionType):
             cached = self._eval_cache.get(type_id)
             if cached is None or cached[0] is not member:
-                cached = self._eval_cache[type_id] = (member, member())
+                evaluated = (member, member())
+                # Another thread may have evaluated the member in the meantime, all must see the same type.
+                cached = self._eval_cache.setdefault(type_id, evaluated)
+                if cached[0] is not member:
+                    cached = self._eval_cache[type_id] = evaluated
             return cached[1]
 
         return member
-- 
2.43.0


From c40e7b1f554ed3ca3b422a05de943fcaabfecdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:38 +0000
Subject: [PATCH 53/76] fix: reject malformed decimals whatever the decimal
 context of the current thread

---
 databind/src/databind/json/converters.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 8ed754a..dfc2bb5 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -257,7 +257,13 @@ class DecimalConverter(Converter):
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
                 try:
-                    value = context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
+                    # Without a precision, the number is exact. What happens to a malformed one must not depend on the
+                    # decimal context of the current thread, which may not trap invalid operations.
+                    value = (
+                        context.create_decimal(ctx.value)
+                        if context
+                        else decimal.Decimal(ctx.value, decimal.Context(traps=[decimal.InvalidOperation]))
+                    )
                 except (ArithmeticError, ValueError) as exc:
                     raise ConversionError(self, ctx, f"not a decimal number: {ctx.value!r}") from exc
                 return value if datatype.type is decimal.Decimal else datatype.type(value)
-- 
2.43.0


From 023a9ecf9e546505ac3f7c16aeedecfe152c6e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:41 +0000
Subject: [PATCH 54/76] fix: do not take equal values of other types for a
 literal value

---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index dfc2bb5..cb31e5b 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -959,7 +959,8 @@ class LiteralConverter(Converter):
         if not isinstance(datatype, LiteralTypeHint):
             raise NotImplementedError
 
-        if ctx.value not in datatype.values:
+        # NOTE: Values of different types may be equal (like 1, 1.0 and True) without being the same literal.
+        if not any(type(value) is type(ctx.value) and value == ctx.value for value in datatype.values):
             raise ConversionError(
                 self,
                 ctx,
-- 
2.43.0


From eb32949f564a6dc053ec93a9baedc9f290dd2ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:43 +0000
Subject: [PATCH 55/76] fix: do not take truth values for members of integer
 enums

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index cb31e5b..7ff2b1c 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -328,7 +328,7 @@ class EnumConverter(Converter):
 
         else:
             if issubclass(enum_type, enum.IntEnum):
-                if not isinstance(value, int):
+                if not isinstance(value, int) or isinstance(value, bool):
                     raise ConversionError.expected(self, ctx, int, type(value))
                 try:
                     return enum_type(value)
-- 
2.43.0


From e90dafd00582a263d3f197c9290b0bf136547806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 56/76] fix: look for missing arguments among the fields of the
 class whose constructor is called

---
 databind/src/databind/core/dataclasses.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 18fb905..189a2b7 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -83,7 +83,9 @@ def _process_class(cls, **kwargs):
 
     def __post_init__(self, *init_vars):
         # Ensure that no field and no init-only variable has a "uninitialized" value.
-        for f in fields(self):
+        # It is the fields of the class whose constructor was called that count, if a subclass has none of its own.
+        owner = next((c for c in type(self).__mro__ if "__init__" in c.__dict__), type(self))
+        for f in fields(owner if is_dataclass(owner) else self):
             if f.init and getattr(self, f.name, None) is NotSet.Value:
                 raise TypeError(f"missing required argument {f.name!r}")
         if any(value is NotSet.Value for value in init_vars):
-- 
2.43.0


From a5e581c12a3063bc9a76b53332d45c0ee05f726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 57/76] fix: classes that derive from a typed NamedTuple
 convert like it

---
 databind/src/databind/json/converters.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 7ff2b1c..ab0bc36 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -98,22 +98,21 @@ class CollectionConverter(Converter):
             raise NotImplementedError
 
         # NamedTuples with type information are a lot like data classes, so we delegate to the SchemaConverter.
-        if (
-            isinstance(datatype, ClassTypeHint)
-            and issubclass(datatype.type, tuple)
-            and getattr(datatype.type, "__annotations__", None)
-        ):
+        # The fields are annotated in the class that declares them, which may be a base class.
+        nt_type = next((c for c in datatype.type.__mro__ if issubclass(c, tuple) and "_fields" in vars(c)), None)
+        nt_annotations = getattr(nt_type, "__annotations__", None)
+        if isinstance(datatype, ClassTypeHint) and nt_type and nt_annotations:
             defaults = getattr(datatype.type, "_field_defaults", {})
             schema = Schema(
                 fields={
                     name: Field(
                         # We need to evaluate the type hint to remove forward references. The source is needed to
                         # understand the context in which forward references must be evaluated.
-                        datatype=TypeHint(type_, source=datatype.type).evaluate(),
+                        datatype=TypeHint(type_, source=nt_type).evaluate(),
                         required=name not in defaults,
                         default=defaults.get(name, NotSet.Value),
                     )
-                    for name, type_ in getattr(datatype.type, "__annotations__").items()
+                    for name, type_ in nt_annotations.items()
                 },
                 constructor=datatype.type,
                 type=datatype.type,
-- 
2.43.0


From 9a4fd47949771991066f1d913f7f1d648ac87652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 58/76] fix: forward references of inherited TypedDict keys are
 evaluated in the module that declares them

---
 databind/src/databind/core/schema.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 659bb95..96d79e0 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -298,11 +298,11 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
 
     assert is_typed_dict(typed_dict), typed_dict
 
-    eval_context = vars(sys.modules[typed_dict.__module__])
-
     annotations = get_annotations(t.cast(type, typed_dict))
     fields: t.Dict[str, Field] = {}
     for key in annotations:
+        # Forward references must be evaluated where the key was declared, which may be a base in another module.
+        eval_context = vars(sys.modules[_get_typed_dict_origin(typed_dict, key).__module__])
         field_hint = TypeHint(annotations[key]).evaluate(eval_context)
 
         # NOTE: Every TypedDict type inherits the attributes of #dict, those are not defaults.
@@ -324,6 +324,17 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
     return Schema(fields, t.cast("Constructor", typed_dict), t.cast(type, typed_dict))
 
 
+def _get_typed_dict_origin(typed_dict: t.Any, key: str) -> t.Any:
+    """Returns the typed dictionary that declares the given *key*, which may be one that *typed_dict* derives from."""
+
+    for base in getattr(typed_dict, "__orig_bases__", ()):
+        # NOTE: Typed dictionaries do not have their bases in their MRO, but all annotations of their bases.
+        if is_typed_dict(base) and key in base.__annotations__:
+            if base.__annotations__[key] is typed_dict.__annotations__[key]:
+                return _get_typed_dict_origin(base, key)
+    return typed_dict
+
+
 def _is_required(datatype: TypeHint, default: bool) -> bool:
     """If *datatype* is a #AnnotatedTypeHint instance, it will look for a #Required settings instance and returns
     that instances #Required.enabled value. Otherwise, it returns *default*."""
-- 
2.43.0


From c258611505195bdf250db94434d7bf63cd04d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 59/76] fix: a tagged union does not overwrite a key of its
 member with the discriminator, or the discriminator with the member

---
 databind/src/databind/json/converters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index ab0bc36..048b54c 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -903,6 +903,8 @@ class UnionConverter(Converter):
             raise ConversionError(self, ctx, str(exc)) from exc
 
         nesting_key = union.nesting_key or member_name
+        if style == Union.NESTED and nesting_key == discriminator_key:
+            raise ConversionError(self, ctx, f"the nesting key {nesting_key!r} is also the discriminator key")
         type_hint = TypeHint(member_type) if not isinstance(member_type, TypeHint) else member_type
 
         if is_deserialize:
@@ -936,6 +938,8 @@ class UnionConverter(Converter):
                 result = {discriminator_key: member_name, nesting_key: result}
             elif style == Union.FLAT:
                 assert isinstance(result, t.MutableMapping), type(result)
+                if result.get(discriminator_key, member_name) != member_name:
+                    raise ConversionError(self, ctx, f"the member's key {discriminator_key!r} is the discriminator key")
                 result[discriminator_key] = member_name
             elif style == Union.KEYED:
                 result = {member_name: result}
-- 
2.43.0


From bf1c74218ada8cf36b7bbde487f580cd7d779952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 60/76] fix: ImportUnionMembers takes the failure to import a
 module for its absence only if that module is missing

---
 databind/src/databind/core/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 4a4f448..97b3a73 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -197,7 +197,7 @@ class ImportUnionMembers(UnionMembers):
                 module = importlib.import_module(sub_module_name)
                 module_name = sub_module_name
             except ImportError as exc:
-                if sub_module_name in str(exc):
+                if isinstance(exc, ModuleNotFoundError) and exc.name == sub_module_name:
                     break
                 raise
         else:
-- 
2.43.0


From 7538f6a470819d138602b7764fc39968cc884a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 61/76] fix: Serializing a remainder field that is also
 flattened raises a ConversionError, not an AssertionError

---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 048b54c..966751d 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -564,7 +564,8 @@ class SchemaConverter(Converter):
                     )
                 # We look at the remainder field later.
                 remainder_field = field_name, field
-                assert not field.flattened, "remainder field cannot be flattened"
+                if field.flattened:
+                    raise ConversionError(self, ctx, f"remainder field {field_name!r} cannot be flattened")
             value = field_ctx.convert()
             if field.flattened:
                 if not isinstance(value, t.Mapping):
-- 
2.43.0


From 89d40fb2bd3f7d9b509efe1306c0e1cffca6719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 62/76] fix: The flat style of a union does not add the
 discriminator to a mapping that belongs to the value

---
 databind/src/databind/json/converters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 966751d..9e3e45b 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -1,4 +1,5 @@
 import base64
+import copy
 import datetime
 import decimal
 import enum
@@ -941,6 +942,8 @@ class UnionConverter(Converter):
                 assert isinstance(result, t.MutableMapping), type(result)
                 if result.get(discriminator_key, member_name) != member_name:
                     raise ConversionError(self, ctx, f"the member's key {discriminator_key!r} is the discriminator key")
+                # The mapping may belong to the value if it comes from a custom converter.
+                result = copy.copy(result)
                 result[discriminator_key] = member_name
             elif style == Union.KEYED:
                 result = {member_name: result}
-- 
2.43.0


From a2ef47b8418fe1bdbcee3f25aa4453fe4f20fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 63/76] fix: A ValueError in a settings provider is not taken
 for the absence of settings

---
 databind/src/databind/core/settings.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 51d6b16..a1290b0 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -188,10 +188,8 @@ class ClassDecoratorSetting(Setting):
 def get_highest_setting(settings: t.Iterable[T_Setting]) -> "T_Setting | None":
     """Return the first, highest setting of *settings*."""
 
-    try:
-        return max(settings, key=lambda s: s.priority)
-    except ValueError:
-        return None
+    # NOTE: A ValueError that occurs in the iterator, e.g. in a settings provider, does not mean that there is no setting.
+    return max(settings, key=lambda s: s.priority, default=None)
 
 
 def get_class_settings(
-- 
2.43.0


From 1747c955d9896fa837810de99d86e0b858b86af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 64/76] fix: DateFormats of different priority are not equal,
 so typing does not take type hints with them for the same

---
 databind/src/databind/core/settings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index a1290b0..df2311d 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -556,6 +556,9 @@ class DateFormat(Setting):
 
     formats: t.Sequence[T_Input]
 
+    #: Part of the comparison, as type hints with annotations that compare equal are one and the same to #typing.
+    priority: Priority = Priority.NORMAL
+
     def __init__(self, *formats: T_Input, priority: Priority = Priority.NORMAL) -> None:
         if not formats:
             raise ValueError("need at least one date format")
-- 
2.43.0


From d1ae8240a555c83d68c65da57f6d0145937502ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 65/76] fix: field() does not modify the metadata that is
 passed to it

---
 databind/src/databind/core/dataclasses.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 189a2b7..da75365 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -161,7 +161,5 @@ def field(*, annotations=None, metadata=None, **kwargs):
     """
 
     if annotations:
-        if metadata is None:
-            metadata = {}
-        metadata[ANNOTATIONS_METADATA_KEY] = annotations
+        metadata = {**(metadata or {}), ANNOTATIONS_METADATA_KEY: annotations}
     return dataclasses.field(**kwargs, metadata=metadata)
-- 
2.43.0


From 28c31a5cd872659063dad9a227cb5a04a03c61c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 66/76] fix: get_fields_expanded() uses the given function to
 convert to a schema on all levels

---
 databind/src/databind/core/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 96d79e0..a6cb2d7 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -411,7 +411,7 @@ def get_fields_expanded(
             field_schema = convert_to_schema(field.datatype)
             result[field_name] = {
                 **{k: v for k, v in field_schema.fields.items() if not v.flattened},
-                **{k: v for sf in get_fields_expanded(field_schema).values() for k, v in sf.items()},
+                **{k: v for sf in get_fields_expanded(field_schema, convert_to_schema).values() for k, v in sf.items()},
             }
             for sub_field_name in result[field_name]:
                 if sub_field_name in schema.fields and sub_field_name != field_name:
-- 
2.43.0


From 2fbd488d3218a7b0b05e9645c482ca618170ee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 67/76] fix: A KeyError that occurs while loading an entrypoint
 is not taken for the absence of the entrypoint

---
 databind/src/databind/core/union.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 97b3a73..fed2dcf 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -155,9 +155,11 @@ class EntrypointUnionMembers(UnionMembers):
 
     def get_type_by_id(self, type_id: str) -> t.Any:
         try:
-            return self._entrypoints[type_id].load()
+            ep = self._entrypoints[type_id]
         except KeyError:
             raise ValueError(f"{type_id!r} is not a valid type ID for {self}")
+        # NOTE: A KeyError that occurs while the entrypoint is loaded does not mean that there is no such entrypoint.
+        return ep.load()
 
     def get_type_ids(self) -> t.List[str]:
         return list(self._entrypoints.keys())
-- 
2.43.0


From 8cd2b3025e361c665555f9840aba0e48e695e259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 68/76] fix: A set of values that cannot be in a set is refused
 instead of deserialized as a list

---
 databind/src/databind/json/converters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 9e3e45b..d6279eb 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -182,7 +182,9 @@ class CollectionConverter(Converter):
 
             try:
                 return python_type(values)
-            except TypeError:
+            except TypeError as exc:
+                if issubclass(python_type, t.AbstractSet):
+                    raise ConversionError(self, ctx, str(exc)) from exc  # The elements are not hashable.
                 # We assume that the native list is an appropriate placeholder for whatever specific Collection type
                 # was chosen in the value's datatype.
                 return values
-- 
2.43.0


From 35168de49893d0ee54e48cf592cd8413f690e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 69/76] fix: Settings and providers of settings that have a
 length of zero are not ignored

---
 databind/src/databind/core/mapper.py   | 4 ++--
 databind/src/databind/core/settings.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/mapper.py b/databind/src/databind/core/mapper.py
index f9e909c..3d13e65 100644
--- a/databind/src/databind/core/mapper.py
+++ b/databind/src/databind/core/mapper.py
@@ -21,7 +21,7 @@ class ObjectMapper(t.Generic[T, U]):
 
         assert isinstance(settings, (type(None), Settings)), settings
         self.module = Module("ObjectMapper.module")
-        self.settings = settings or Settings()
+        self.settings = Settings() if settings is None else settings
 
     def copy(self) -> "ObjectMapper[T, U]":
         new = type(self)(self.settings.copy())
@@ -67,7 +67,7 @@ class ObjectMapper(t.Generic[T, U]):
             direction=direction,
             value=value,
             datatype=datatype,
-            settings=settings or self.settings,
+            settings=self.settings if settings is None else settings,
             key=Context.ROOT,
             location=location or Location.EMPTY,
             convert_func=self.module.convert,
diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index df2311d..fd0c595 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -121,7 +121,7 @@ class Settings(SettingsProvider):
             for provider in self.providers:
                 yield from provider(context)
             yield from self.global_settings
-            if self.parent:
+            if self.parent is not None:
                 setting = self.parent.get_setting(context, setting_type)
                 if setting is not None:
                     yield setting
-- 
2.43.0


From b839e5d1cb1ffff7f8fa0aa576813d7aabdb6888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:33 +0000
Subject: [PATCH 70/76] fix: The trace of an error names the position at line
 and column zero, too

---
 databind/src/databind/core/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/context.py b/databind/src/databind/core/context.py
index fd238f6..e3fa80a 100644
--- a/databind/src/databind/core/context.py
+++ b/databind/src/databind/core/context.py
@@ -153,7 +153,7 @@ def format_context_trace(ctx: Context) -> str:
             key = f"[{ctx.key!r}]"
 
         line = f"  {key}: {ctx.datatype}"
-        if ctx.location.line or ctx.location.column:
+        if ctx.location.line is not None or ctx.location.column is not None:
             line = f"{line} (at {ctx.location.line}:{ctx.location.column})"
 
         lines.append(line)
-- 
2.43.0


From c3feefe0af66c60753ffa4265dda4d4d086a04e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 71/76] fix: An empty nesting key of a union is a nesting key

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index d6279eb..a6def42 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -906,7 +906,7 @@ class UnionConverter(Converter):
         except ValueError as exc:
             raise ConversionError(self, ctx, str(exc)) from exc
 
-        nesting_key = union.nesting_key or member_name
+        nesting_key = member_name if union.nesting_key is None else union.nesting_key
         if style == Union.NESTED and nesting_key == discriminator_key:
             raise ConversionError(self, ctx, f"the nesting key {nesting_key!r} is also the discriminator key")
         type_hint = TypeHint(member_type) if not isinstance(member_type, TypeHint) else member_type
-- 
2.43.0


From 9019eb1c5772e8f5f2de2b5a33d2cdb1c94f58d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 72/76] fix: Entries of a mapping are not lost if their keys
 are converted to the same key

---
 databind/src/databind/json/converters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index a6def42..bb864ef 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -385,6 +385,8 @@ class MappingConverter(Converter):
             key_ctx = ctx.spawn(key, key_type, f"Key({key!r})")
             key = key_ctx.convert()
             try:
+                if key in result:
+                    raise ConversionError(self, key_ctx, "another key of the mapping is converted to the same key")
                 result[key] = value
             except TypeError as exc:
                 raise ConversionError(self, key_ctx, str(exc)) from exc
-- 
2.43.0


From d9cf7eb69e667fa811f0490f50ea3ac97322a611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 73/76] fix: enum aliases of flag combinations, of a zero
 member and of second names can be read

---
 databind/src/databind/json/converters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index bb864ef..c047cfb 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -339,8 +339,9 @@ class EnumConverter(Converter):
             if issubclass(enum_type, enum.Enum):
                 if not isinstance(value, str):
                     raise ConversionError.expected(self, ctx, str, type(value))
-                for enum_value in enum_type:
-                    alias = self._discover_alias(enum_type, enum_value.name)
+                # NOTE: Iterating over a flag does not give its members that have no bit of their own.
+                for member_name, enum_value in enum_type.__members__.items():
+                    alias = self._discover_alias(enum_type, member_name)
                     if alias and value in alias.aliases:
                         return enum_value
                 try:
-- 
2.43.0


From 19c46202a6953381c82b1f10c0d6a4c93f047b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:27 +0000
Subject: [PATCH 74/76] fix: a malformed decimal is refused with a precision,
 whatever the default context traps

---
 databind/src/databind/json/converters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c047cfb..d43b321 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -255,6 +255,9 @@ class DecimalConverter(Converter):
         strict = ctx.get_setting(Strict) or Strict(self.strict_by_default)
         precision = ctx.get_setting(Precision)
         context = precision.to_decimal_context() if precision else None
+        if context:
+            # What happens to a malformed number must not depend on the process-wide default context.
+            context.traps[decimal.InvalidOperation] = True
 
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
-- 
2.43.0


From 75992d240614563f8e73d72d55ac5a41113bba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:40 +0000
Subject: [PATCH 75/76] fix: a class that is registered as a member of its own
 union is converted as that member

---
 databind/src/databind/json/converters.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index d43b321..325b336 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -72,6 +72,17 @@ def _unwrap_annotated(hint: TypeHint) -> TypeHint:
     return hint
 
 
+def _is_member_of_itself(ctx: Context) -> bool:
+    """Returns #True if the context converts a class that is decorated with #Union as a member of just that union."""
+
+    return (
+        ctx.parent is not None
+        and _unwrap_annotated(ctx.parent.datatype) == _unwrap_annotated(ctx.datatype)
+        and ctx.parent.get_setting(Union) is ctx.get_setting(Union)
+        and not _is_member_of_itself(ctx.parent)
+    )
+
+
 class AnyConverter(Converter):
     """A converter for #typing.Any and #object typed values, which will return them unchanged in any case."""
 
@@ -874,7 +885,7 @@ class UnionConverter(Converter):
             union = Union(members, Union.BEST_MATCH)
         elif isinstance(datatype, (AnnotatedTypeHint, ClassTypeHint)):
             union = ctx.get_setting(Union)
-            if union is None:
+            if union is None or _is_member_of_itself(ctx):
                 raise NotImplementedError
         else:
             raise NotImplementedError
-- 
2.43.0


From 71bf2855bc8894f0db881603863f7c311a136de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 76/76] fix: a dataclass that is a union is not converted as a
 plain dataclass if the union refuses the value

---
 databind/src/databind/json/converters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 325b336..6998fbd 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -535,6 +535,8 @@ class SchemaConverter(Converter):
         if deserialize_as is not None:
             datatype = TypeHint(deserialize_as.type)
         else:
+            if ctx.get_setting(Union) is not None and not _is_member_of_itself(ctx):
+                raise NotImplementedError("a union is converted by its members")
             datatype = _unwrap_annotated(ctx.datatype)
 
         try:
-- 
2.43.0

