From d324563632379274d2903aed5d6154642eaed90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 01/66] fix: escape the field when appending/prepending it to
 an empty path

---
 marsh/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/path.py b/marsh/path.py
index e69d458..1317f94 100644
--- a/marsh/path.py
+++ b/marsh/path.py
@@ -144,7 +144,7 @@ def prepend(
         The prepended path.
     """
     if not path:
-        return field
+        return escape_field(field, delimiter=delimiter)
     if not field:
         return path
     return delimiter.join(
@@ -171,7 +171,7 @@ def append(
         The appended path.
     """
     if not path:
-        return field
+        return escape_field(field, delimiter=delimiter)
     if not field:
         return path
     return delimiter.join(
-- 
2.43.0


From 0a03d2118653bad89365edfa4b94aa73360fe2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:06 +0000
Subject: [PATCH 02/66] fix: combine values at nested paths in element.override

---
 marsh/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/element.py b/marsh/element.py
index c66f366..56ca2e0 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -245,6 +245,7 @@ def override(
                 element=element.get(field, {}),
                 value=value,
                 path=remaining_path,
+                combine=combine,
             )
     elif marsh.utils.is_sequence(element):
         try:
@@ -266,6 +267,7 @@ def override(
                 element=element[index],
                 value=value,
                 path=remaining_path,
+                combine=combine,
             )
         element = tuple(element)
     else:
-- 
2.43.0


From 9ae18d419db42cdcdee9d4114733b1846566a807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:52 +0000
Subject: [PATCH 03/66] fix: raise a ParseError for a missing closing quote

---
 marsh/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/parse.py b/marsh/parse.py
index cf832f7..973f4b7 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -355,7 +355,7 @@ def string(
         chars: List[str] = []
         if peek(source) in QUOTE_CHARACTERS:
             quote = pop(source)
-        while (char := peek(source)) not in terminal_chars or quote:
+        while source and ((char := peek(source)) not in terminal_chars or quote):
             if char == ESCAPE:
                 if len(source) < 2:
                     raise ParseError(
-- 
2.43.0


From e3058c66c559b4d728c321a60c17e88870c4f5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 04/66] fix: parse integers without rounding them to a float

---
 marsh/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marsh/parse.py b/marsh/parse.py
index 973f4b7..f9d64dc 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -414,6 +414,10 @@ def terminal(
         raise err
     if quoted or not value:
         return value
+    try:
+        return int(value)
+    except ValueError:
+        pass
     try:
         fl_value = float(value)
         if fl_value.is_integer():
-- 
2.43.0


From d018dc9c311e1046d9ad569514c318d1a4ad961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:01 +0000
Subject: [PATCH 05/66] fix: allow whitespace between the last item and the
 closing bracket of a sequence

---
 marsh/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/parse.py b/marsh/parse.py
index f9d64dc..603d7bc 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -525,6 +525,7 @@ def sequence(
                     terminal_chars=',' + closing_char,
                 ),
             )
+            consume_whitespace(source)
         consume_whitespace(source)
         if peek(source) != closing_char:
             raise ParseError(
-- 
2.43.0


From a6ebfd00a1889294dd04c545a6a81c3b703ffaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:05 +0000
Subject: [PATCH 06/66] fix: make ParseError a MarshError so that entry points
 report malformed overrides

---
 marsh/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/parse.py b/marsh/parse.py
index 603d7bc..250fdc3 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -41,7 +41,7 @@ class _ParseFunction(Protocol):
         ...
 
 
-class ParseError(Exception):
+class ParseError(marsh.errors.MarshError):
 
     def __init__(
         self,
-- 
2.43.0


From 24dcb68c13f3489b8afe12740a31af380068bcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 07/66] fix: refuse a delete override without a path

---
 marsh/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marsh/parse.py b/marsh/parse.py
index 250fdc3..53d5a07 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -257,6 +257,11 @@ def override(
                     'The delete override should be in the form of `~path.to.field`',
                     remaining=source,
                 )
+            if not path:
+                raise ParseError(
+                    'expected a path after `~` in override',
+                    remaining=source,
+                )
             return DeleteValue(path=path)
         if peek(source) not in (SET_VALUE_CHARACTERS + SET_CONFIG_CHARACTERS):
             raise ParseError(
-- 
2.43.0


From 459ef7901c2cc105ee9a46797f1eca8d5d51690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:00 +0000
Subject: [PATCH 08/66] fix: keep int subclasses when casting strings and
 floats

---
 marsh/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 8f0338a..d31cbf9 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2092,9 +2092,9 @@ def cast_primitive(
     if issubclass(type_, bool):
         return primitive_to_bool(value)
     if issubclass(type_, int) and isinstance(value, str):
-        return str_to_int(value)
+        value = str_to_int(value)
     if issubclass(type_, int) and isinstance(value, float):
-        return float_to_int(value)
+        value = float_to_int(value)
     return type_(value)
 
 
-- 
2.43.0


From e74f8bbd94f295a505b0b8379d75f08b73a4b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 09/66] fix: suggest the closest value for values that are not
 strings

---
 marsh/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index d31cbf9..23179e5 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2353,8 +2353,8 @@ def get_closest(
         The closest candidate. :data:`None` if no candidate is close.
     """
     close = difflib.get_close_matches(
-        value,
-        candidates,
+        str(value),
+        map(str, candidates),
         n=1,
     )
     if close:
-- 
2.43.0


From e58cba254312102751d4e960cfc48fb1ecc420c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:52 +0000
Subject: [PATCH 10/66] fix: match enum names before the values of other
 members

---
 marsh/schema/types/enum.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/marsh/schema/types/enum.py b/marsh/schema/types/enum.py
index c07abf6..be3a8ee 100644
--- a/marsh/schema/types/enum.py
+++ b/marsh/schema/types/enum.py
@@ -22,6 +22,17 @@ class EnumUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_E]):
         super().__init__(*args, **kwargs)
         self.schemas = tuple(map(EnumValueUnmarshalSchema, self.value))
 
+    def unmarshal(
+        self,
+        element: marsh.element.ElementType,
+    ) -> _E:
+        # a name takes precedence over the values of other members
+        if isinstance(element, str):
+            for name, member in self.value.__members__.items():
+                if element == name:
+                    return member
+        return super().unmarshal(element)
+
     @classmethod
     def match(
         cls,
-- 
2.43.0


From 2eeeac231f1336d18177e3a34248d561b5fa1275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 11/66] fix: ignore whitespace in slice syntax

---
 marsh/schema/types/slice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/slice.py b/marsh/schema/types/slice.py
index 53819b0..f282664 100644
--- a/marsh/schema/types/slice.py
+++ b/marsh/schema/types/slice.py
@@ -115,7 +115,7 @@ class SliceUnmarshalSchema(marsh.schema.UnmarshalSchema[slice]):
                     type=self.value,
                 )
             args = tuple(
-                int(index) if index else None
+                int(''.join(index.split())) if index.strip() else None
                 for index
                 in element.split(':')
             )
-- 
2.43.0


From 42f86d816cf8a60583f89743316e7f394d817062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:28 +0000
Subject: [PATCH 12/66] fix: marshal string enums to their value

---
 marsh/schema/types/primitive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/primitive.py b/marsh/schema/types/primitive.py
index e8566e6..97f4a6b 100644
--- a/marsh/schema/types/primitive.py
+++ b/marsh/schema/types/primitive.py
@@ -44,7 +44,8 @@ class PrimitiveMarshalSchema(marsh.schema.MarshalSchema):
         elif isinstance(self.value, float):
             return float(self.value)
         else:
-            return str(self.value)
+            # not str(value), subclasses such as enums override it
+            return str.__str__(self.value)
 
 
 @marsh.schema.register
-- 
2.43.0


From dea8266ba8e1f4c96191f6d263b0ac04f0bbde2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:37 +0000
Subject: [PATCH 13/66] fix: construct fixed size tuples from mappings and
 partial sequences

---
 marsh/schema/types/tuple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/tuple.py b/marsh/schema/types/tuple.py
index 4172504..8c4381b 100644
--- a/marsh/schema/types/tuple.py
+++ b/marsh/schema/types/tuple.py
@@ -58,4 +58,4 @@ class TupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[tuple
         *args,
         **kwargs,
     ) -> tuple:
-        return tuple(args, **kwargs)
+        return (*args, *kwargs.values())
-- 
2.43.0


From b33cec5950094b8750a0700a5d13e5e9c2dd279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:45 +0000
Subject: [PATCH 14/66] fix: construct typed dicts from sequences in schema
 order

---
 marsh/schema/types/typeddict.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 8685153..3337122 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -101,14 +101,7 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         *args,
         **kwargs,
     ) -> _T:
-        if args and not kwargs:
-            kwargs = {
-                key: value
-                for key, value
-                in zip(get_type_hints(self.value), args)
-            }
-            args = ()
-        mapping = dict(*args, **kwargs)
+        mapping = {**dict(zip(self.schemas, args)), **kwargs}
         for key, value in tuple(mapping.items()):
             if value is self._sentinel:
                 if key in self.optional_keys:
-- 
2.43.0


From 1fe93fee7b7027c9b60d5b76d90bd2a3499f23b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:46 +0000
Subject: [PATCH 15/66] fix: use the default of protocols, dates and None

---
 marsh/schema/types/datetime.py | 2 ++
 marsh/schema/types/none.py     | 2 ++
 marsh/schema/types/protocol.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 4899039..8dfd99d 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -114,6 +114,8 @@ class DatetimeUnmarshalSchema(
         element: marsh.element.ElementType,
     ) -> Union[datetime.time, datetime.date]:
         if marsh.utils.is_missing(element):
+            if self.has_default():
+                return self.get_default()
             raise marsh.errors.MissingValueError(
                 type=self.value,
             )
diff --git a/marsh/schema/types/none.py b/marsh/schema/types/none.py
index 81b7502..f21e7c3 100644
--- a/marsh/schema/types/none.py
+++ b/marsh/schema/types/none.py
@@ -80,6 +80,8 @@ class NoneUnmarshalSchema(marsh.schema.UnmarshalSchema[None]):
         self,
         element: marsh.element.ElementType,
     ) -> None:
+        if marsh.utils.is_missing(element) and self.has_default():
+            return self.get_default()
         if element is None or marsh.utils.is_missing(element):
             return None
         raise marsh.errors.UnmarshalError(
diff --git a/marsh/schema/types/protocol.py b/marsh/schema/types/protocol.py
index da5a8dc..e16fa81 100644
--- a/marsh/schema/types/protocol.py
+++ b/marsh/schema/types/protocol.py
@@ -90,6 +90,8 @@ class ProtocolUnmarshalSchema(marsh.schema.UnmarshalSchema[Any]):
         self,
         element: marsh.element.ElementType,
     ) -> Any:
+        if marsh.utils.is_missing(element) and self.has_default():
+            return self.get_default()
         for type_ in self.matched:
             try:
                 return marsh.unmarshal(type_, element)
-- 
2.43.0


From d45e240b82df736596cf7908981208bdc660aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:56 +0000
Subject: [PATCH 16/66] fix: report timestamps out of range as unmarshal errors

---
 marsh/schema/types/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 8dfd99d..e481aec 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -137,7 +137,7 @@ class DatetimeUnmarshalSchema(
                 ts,
                 datetime.timezone.utc,
             )
-        except ValueError:
+        except (ValueError, OverflowError, OSError):
             if isinstance(element, str):
                 dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
         if dt is None:
-- 
2.43.0


From 620ecdded164c355ac049d71ebcd89b71dbe93da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:37 +0000
Subject: [PATCH 17/66] fix: support unions written as X | Y

---
 marsh/schema/core/unmarshal.py |  3 +--
 marsh/schema/types/union.py    |  4 +---
 marsh/utils.py                 | 20 +++++++++++++++++++-
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index d821b95..dd801ee 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -16,7 +16,6 @@ from typing import (
     Type,
     TypeVar,
     Union,
-    get_origin,
     overload,
 )
 from typing_extensions import TypeAlias
@@ -229,7 +228,7 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             return type(object).__call__(cls, value, *args, **kwargs)
         metacls: 'UnmarshalSchemaMeta' = type(cls)
         value = resolve_type(value, cache=metacls.type_cache)
-        if get_origin(value) is Union:
+        if marsh.utils.is_union(value):
             return cls._build(
                 value=value,
                 *args,
diff --git a/marsh/schema/types/union.py b/marsh/schema/types/union.py
index b030b08..36ddb98 100644
--- a/marsh/schema/types/union.py
+++ b/marsh/schema/types/union.py
@@ -1,9 +1,7 @@
 from typing import (
     Any,
     TypeVar,
-    Union,
     get_args,
-    get_origin,
 )
 
 import marsh
@@ -36,7 +34,7 @@ class UnionUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_T]):
         value: Any,
     ) -> bool:
         return bool(
-            get_origin(value) is Union
+            marsh.utils.is_union(value)
             and get_args(value),
         )
 
diff --git a/marsh/utils.py b/marsh/utils.py
index 23179e5..b27b432 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1821,6 +1821,24 @@ def is_typing_alias(
     )
 
 
+def is_union(
+    type_: Any,
+) -> bool:
+    """Determine if a type is a union.
+
+    Arguments:
+        type: The type to evaluate.
+
+    Returns:
+        ``True`` if value is ``typing.Union`` or a union
+        written as ``X | Y``, else ``False``.
+    """
+    return get_origin(type_) in (
+        Union,
+        getattr(types, 'UnionType', Union),  # python 3.10+
+    )
+
+
 def is_optional(
     type_: Any,
 ) -> bool:
@@ -1835,7 +1853,7 @@ def is_optional(
     """
     if is_annotated(type_):
         type_ = get_origin(type_)
-    return get_origin(type_) is Union \
+    return is_union(type_) \
         and type(None) in get_args(type_)
 
 
-- 
2.43.0


From dc66d056d73d69b75579727c84b4930aca1b3420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 18/66] fix: do not share cached schemas between equal but
 different types and defaults

---
 marsh/schema/core/unmarshal.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index dd801ee..33e3168 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -16,6 +16,7 @@ from typing import (
     Type,
     TypeVar,
     Union,
+    get_args,
     overload,
 )
 from typing_extensions import TypeAlias
@@ -105,6 +106,24 @@ def resolve_type(
     return value
 
 
+def has_union(
+    value: Any,
+) -> bool:
+    """Determine if a type is a union or has a union
+    somewhere in its arguments.
+
+    Arguments:
+        value: The type to evaluate.
+
+    Returns:
+        ``True`` if there is a union, else ``False``.
+    """
+    return (
+        marsh.utils.is_union(value)
+        or any(map(has_union, get_args(value)))
+    )
+
+
 class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
 
     def cache_clear(
@@ -228,7 +247,9 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             return type(object).__call__(cls, value, *args, **kwargs)
         metacls: 'UnmarshalSchemaMeta' = type(cls)
         value = resolve_type(value, cache=metacls.type_cache)
-        if marsh.utils.is_union(value):
+        # equal keys do not always give equal schemas, i.e. the order of
+        # union types and default values such as 1, 1.0 and True
+        if args or kwargs or has_union(value):
             return cls._build(
                 value=value,
                 *args,
-- 
2.43.0


From 413726fc942ad8835c207cf4fc021e0b88fd2b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:53 +0000
Subject: [PATCH 19/66] fix: do not mix up cache keys that only share a hash

---
 marsh/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/utils.py b/marsh/utils.py
index b27b432..ed3da32 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -492,6 +492,7 @@ class _CachedHashKey(list):
         self,
         value,
     ):
+        super().__init__(value)
         self._hash = hash(value)
 
     def __hash__(self):
-- 
2.43.0


From d530de0367584f35b2cff13e4cac457aefa1a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 20/66] fix: keep the order of SafeDict when items are replaced
 or removed

---
 marsh/utils.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index ed3da32..171145d 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -590,7 +590,8 @@ class SafeDict(MutableMapping[_K, _V]):
                 self._order = [(True, i) for i in range(len(self._hashable_cache))]
             for i, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
                 if k == key:
-                    self._unhashable_cache[-i] = (key, value)
+                    self._unhashable_cache[-i] = (k, value)
+                    break
             else:
                 self._order.append((False, len(self._unhashable_cache)))
                 self._unhashable_cache.append((key, value))
@@ -605,26 +606,34 @@ class SafeDict(MutableMapping[_K, _V]):
                 # keys in this container, otherwise the order is
                 # already kept by the underlying dict.
                 if self._unhashable_cache:
-                    for key_idx, k in enumerate(self._hashable_cache):
-                        if k == key:
-                            for order_idx, (hashable, idx) in enumerate(self._order):
-                                if hashable and idx == key_idx:
-                                    self._order.pop(order_idx)
-                                    break
-                            break
+                    self._remove_from_order(
+                        True,
+                        tuple(self._hashable_cache).index(key),
+                    )
                 del self._hashable_cache[key]
                 return
         except TypeError:
-            for key_idx, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
+            for key_idx, (k, _) in enumerate(self._unhashable_cache):
                 if k == key:
-                    self._unhashable_cache.pop(-key_idx)
-                    for order_idx, (hashable, idx) in enumerate(self._order):
-                        if not hashable and idx == key_idx:
-                            self._order.pop(order_idx)
-                            break
+                    self._unhashable_cache.pop(key_idx)
+                    self._remove_from_order(False, key_idx)
                     return
         raise KeyError(key)
 
+    def _remove_from_order(
+        self,
+        hashable: bool,
+        index: int,
+    ) -> None:
+        self._order.remove((hashable, index))
+        # the items that followed in the same
+        # container have all moved one step.
+        self._order = [
+            (h, i - 1 if h == hashable and i > index else i)
+            for h, i
+            in self._order
+        ]
+
     def _ordered_iter(
         self,
         reverse: bool,
-- 
2.43.0


From 9f89d5c5c6954cbd8f866b45bc6b8ca27864b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:51 +0000
Subject: [PATCH 21/66] fix: detect values already present in PriorityOrder

---
 marsh/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 171145d..4797e7c 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1265,7 +1265,7 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
 
             # does the value to be added already exist?
             for i in range(len(self._values)):
-                if self._values[i] == wrapped:
+                if self._values[i].value == value:
                     if replace:
                         del self._values[i]
                         break
-- 
2.43.0


From b75fbef316e8d34c1d1d61a5ae9c7131014db875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:59 +0000
Subject: [PATCH 22/66] fix: keep relative priorities when the order is
 recalculated

---
 marsh/utils.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 4797e7c..4a7da53 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1119,7 +1119,7 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
         ) -> None:
             self.value = value
             self.name = str(value)
-            self.ident = hash(value)
+            self.ident = self.resolve_ident(value)
             self.priority = priority
             self.relative_priority = PriorityOrder._RelativePriorityContainer(
                 name=self.name,
@@ -1136,7 +1136,17 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
             return self.name
 
         @staticmethod
+        def resolve_ident(
+            value: Any,
+        ) -> int:
+            # a relative priority can be given as the hash of a value.
+            # hashing twice gives the same result for a value and
+            # for its hash.
+            return hash(hash(value))
+
+        @classmethod
         def resolve_priorities(
+            cls,
             priority: 'PriorityOrder.RelativePriority[_V]',
         ) -> Set[int]:
             if priority is None:
@@ -1146,10 +1156,10 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
                     isinstance(priority, collections.abc.Iterable)
                     and not isinstance(priority, (str, bytes))
                 ):
-                    return set(map(hash, priority))
+                    return set(map(cls.resolve_ident, priority))
             except Exception:
                 pass
-            return {hash(priority)}
+            return {cls.resolve_ident(priority)}
 
     def __init__(
         self,
-- 
2.43.0


From 4c28f524f5a0acff0cb3a62cf2f16510e7dadb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:24 +0000
Subject: [PATCH 23/66] fix: do not lose items when iterating concurrently over
 a cached iterator

---
 marsh/utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 4a7da53..07d109d 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -986,10 +986,18 @@ class IterableFromIterator(Generic[_T]):
     def __iter__(
         self,
     ) -> Iterator[_T]:
-        yield from self._cache
-        for item in self._iter:
+        index = 0
+        while True:
+            # another iteration might have consumed
+            # items since this one was last resumed.
+            while index < len(self._cache):
+                yield self._cache[index]
+                index += 1
+            try:
+                item = next(self._iter)
+            except StopIteration:
+                return
             self._cache.append(item)
-            yield item
 
     def __bool__(
         self,
-- 
2.43.0


From b4d2d2c2da08e5884e689a95c91e2ce14a072a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:02 +0000
Subject: [PATCH 24/66] fix: drop cached schemas when namespaces change

---
 marsh/schema/namespace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 123187a..34183ca 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -138,6 +138,8 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         name,
     ) -> None:
         del self._namespaces[name]
+        self.cache_clear(full=True)
+        marsh.schema.UnmarshalSchema.cache_clear()
 
     def __contains__(
         self,
@@ -224,6 +226,8 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
                 base=base,
             )
         )
+        self.cache_clear(full=True)
+        marsh.schema.UnmarshalSchema.cache_clear()
         return namespace
 
     def cache_clear(
@@ -445,6 +449,7 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         self,
     ) -> None:
         """Clear the cache."""
+        self._schemas.clear()
         self.find_class.cache_clear()  # type: ignore
         self.find_subclasses.cache_clear()  # type: ignore
 
@@ -562,7 +567,6 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
                     f'a component with the name "{name}" '
                     'already exists',
                 )
-            self._schemas.pop(name, None)
 
         def _register(
             component: Type[_T],
@@ -574,7 +578,7 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
                 )
             self.components[name] = component
             self.cache_clear()
-            self._namespaces.cache_clear()
+            self._namespaces.cache_clear(full=True)
             marsh.schema.UnmarshalSchema.cache_clear()
             return component
 
-- 
2.43.0


From f02d692b55e13bfbd249862453ff37ab31800b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:31 +0000
Subject: [PATCH 25/66] fix: restore the working directory when the entry point
 raises

---
 marsh/entry_point.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index 02ac22a..79f11f5 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -229,9 +229,11 @@ class EntryPoint:
             with marsh.errors.maybe_handle_error(handle_create_dir_error):
                 os.makedirs(path, exist_ok=True)
             os.chdir(path)
-        yield
-        if prev_path is not None:
-            os.chdir(prev_path)
+        try:
+            yield
+        finally:
+            if prev_path is not None:
+                os.chdir(prev_path)
 
     def maybe_print_help(
         self,
-- 
2.43.0


From 34ffe66e7ec953d69cbe5dfe9af295043f57bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:38 +0000
Subject: [PATCH 26/66] fix: find named configs in the working directory

---
 marsh/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 93c492b..d83b550 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -184,7 +184,7 @@ def find_config(
                 f'could not find config {target} ',
             )
         return target
-    dpath = os.path.dirname(target)
+    dpath = os.path.dirname(target) or os.curdir
     if not os.path.isdir(dpath):
         raise marsh.errors.ConfigFileError(
             f'unable to browse directory "{dpath}" '
-- 
2.43.0


From 85a5c11592765eea2930284438503b86bb291ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:59 +0000
Subject: [PATCH 27/66] fix: marshal the keys of mappings

---
 marsh/schema/types/generic.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/generic.py b/marsh/schema/types/generic.py
index d021ff9..dd42974 100644
--- a/marsh/schema/types/generic.py
+++ b/marsh/schema/types/generic.py
@@ -46,10 +46,22 @@ class GenericMappingMarshalSchema(marsh.schema.MarshalSchema):
         self,
     ) -> dict:
         return {
-            str(key): marsh.marshal(self.value[key])
+            self._marshal_key(key): marsh.marshal(self.value[key])
             for key in self.value.keys()
         }
 
+    @staticmethod
+    def _marshal_key(
+        key: Any,
+    ) -> str:
+        try:
+            marshaled_key = marsh.marshal(key)
+        except marsh.errors.MarshalError:
+            return str(key)
+        if marsh.utils.is_primitive(marshaled_key):
+            return str(marshaled_key)
+        return str(key)
+
 
 @marsh.schema.register(priority=GENERIC_PRIORITY)
 class GenericSequenceMarshalSchema(marsh.schema.MarshalSchema):
-- 
2.43.0


From c9422ffd8cb53b88cfc4de4d2e427d6836854f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 28/66] fix: pass arguments in front of variable arguments by
 position and keyword only arguments by name

---
 marsh/schema/template/callable.py   | 16 ++++++++++++----
 marsh/schema/template/structured.py | 10 +++++++++-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 24911c9..78365e2 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -37,7 +37,8 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
         except Exception:
             annotations = {}
         positional = {}
-        keyword = {}
+        positional_or_keyword = {}
+        keyword_only = {}
         var_positional = None
         var_keyword = None
         for name, param in sig.parameters.items():
@@ -56,20 +57,27 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             if param.kind == param.POSITIONAL_ONLY:
                 positional[name] = schema
             elif param.kind == param.POSITIONAL_OR_KEYWORD:
-                keyword[name] = schema
+                positional_or_keyword[name] = schema
             elif param.kind == param.KEYWORD_ONLY:
-                keyword[name] = schema
+                keyword_only[name] = schema
             elif param.kind == param.VAR_POSITIONAL:
                 var_positional = (name, schema)
             elif param.kind == param.VAR_KEYWORD:
                 var_keyword = (name, schema)
+        if var_positional:
+            # anything in front of the variable positional
+            # arguments has to be given by its position.
+            positional.update(positional_or_keyword)
         self.positional = tuple(positional)
+        self.keyword_only = tuple(keyword_only)
         schemas = {}
         schemas.update(positional)
         if var_positional:
             name, schema = var_positional
             schemas[f'*{name}'] = schema
-        schemas.update(keyword)
+        else:
+            schemas.update(positional_or_keyword)
+        schemas.update(keyword_only)
         if var_keyword:
             name, schema = var_keyword
             schemas[f'**{name}'] = schema
diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 20294ef..8cc3227 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -31,6 +31,9 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
     positional: Sequence[str] = ()
     """Names of attributes that can only be used as positional arguments."""
 
+    keyword_only: Sequence[str] = ()
+    """Names of attributes that can only be used as keyword arguments."""
+
     def __str__(
         self,
     ) -> str:
@@ -204,8 +207,13 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                     default_args = []
                 else:
                     if element_list:
-                        args.append(schema.unmarshal(element_list.pop(0)))
+                        value = schema.unmarshal(element_list.pop(0))
+                        if name in self.keyword_only:
+                            kwargs[name] = value
+                        else:
+                            args.append(value)
                         default_args and default_args.pop(0)
+                        default_kwargs.pop(name, None)
                     else:
                         if default_args:
                             value = default_args.pop(0)
-- 
2.43.0


From 791af4529f68dfa19a186cba454438ecc5fc477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:59 +0000
Subject: [PATCH 29/66] fix: give dataclass arguments in the order of the
 constructor

---
 marsh/schema/types/dataclass.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 2666e2b..a1d74c8 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -17,12 +17,14 @@ _T = TypeVar('_T')
 
 
 _FIELDS = getattr(dataclasses, '_FIELDS', '__dataclass_fields__')
+_FIELD_SENTINEL = dataclasses._FIELD  # type: ignore
 _INITVAR_SENTINEL = dataclasses._FIELD_INITVAR  # type: ignore
 
 
-def get_init_var_fields(
+def get_init_fields(
     dataclass: Any,
 ) -> Tuple[dataclasses.Field, ...]:
+    # in the same order as the arguments of the constructor
     return tuple(
         field
         for field
@@ -30,7 +32,8 @@ def get_init_var_fields(
             dataclass,
             _FIELDS,
         ).values()
-        if field._field_type is _INITVAR_SENTINEL
+        if field._field_type in (_FIELD_SENTINEL, _INITVAR_SENTINEL)
+        and field.init
     )
 
 
@@ -125,12 +128,13 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
                 return resolve_type(type_.type)
             return type_
 
-        for field in (
-            dataclasses.fields(self.value)
-            + get_init_var_fields(self.value)
-        ):
-            if not field.init:
-                continue
+        fields = get_init_fields(self.value)
+        self.keyword_only = tuple(
+            field.name
+            for field in fields
+            if getattr(field, 'kw_only', False)
+        )
+        for field in fields:
             with marsh.errors.prepend(field.name):
                 type_ = resolve_type(field.type)
                 schemas[field.name] = marsh.schema.UnmarshalSchema(
-- 
2.43.0


From b1c622d0dd6ae48ae96da06a196401707c8cecd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:57 +0000
Subject: [PATCH 30/66] fix: do not validate omitted keys of typed dicts

---
 marsh/schema/template/structured.py | 24 ++++++++++++++++++++++--
 marsh/schema/types/typeddict.py     | 10 ++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 8cc3227..97bfce5 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -207,7 +207,10 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                     default_args = []
                 else:
                     if element_list:
-                        value = schema.unmarshal(element_list.pop(0))
+                        value = self.unmarshal_attribute(
+                            name,
+                            element_list.pop(0),
+                        )
                         if name in self.keyword_only:
                             kwargs[name] = value
                         else:
@@ -224,7 +227,8 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                             if name not in element_dict:
                                 kwargs[name] = value
                         if name not in kwargs:
-                            kwargs[name] = schema.unmarshal(
+                            kwargs[name] = self.unmarshal_attribute(
+                                name,
                                 element_dict.pop(
                                     name,
                                     marsh.MISSING,
@@ -250,6 +254,22 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
             )
         return self.construct(*args, **kwargs)
 
+    def unmarshal_attribute(
+        self,
+        name: str,
+        element: marsh.element.ElementType,
+    ) -> Any:
+        """Unmarshal one of the fixed attributes.
+
+        Arguments:
+            name: The name of the attribute.
+            element: The element for the attribute.
+
+        Returns:
+            The unmarshaled value.
+        """
+        return self.schemas[name].unmarshal(element)
+
     def construct(
         self,
         *args,
diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 3337122..de586cb 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -96,6 +96,16 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
             'all keys are optional.'
         )
 
+    def unmarshal_attribute(
+        self,
+        name: str,
+        element: marsh.element.ElementType,
+    ) -> Any:
+        # an omitted key has no value to validate
+        if marsh.utils.is_missing(element) and name in self.optional_keys:
+            return self._sentinel
+        return super().unmarshal_attribute(name, element)
+
     def construct(
         self,
         *args,
-- 
2.43.0


From c739cd40ff8336f8062753352411c6ef094b56bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:49 +0000
Subject: [PATCH 31/66] fix: apply annotations in typed dicts, named tuples and
 postponed type hints

---
 marsh/schema/template/callable.py |  5 ++---
 marsh/schema/types/dataclass.py   |  3 +--
 marsh/schema/types/namedtuple.py  |  3 +--
 marsh/schema/types/typeddict.py   | 11 +++++-----
 marsh/utils.py                    | 34 +++++++++++++++++++++++++++++++
 5 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 78365e2..93957cf 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -4,7 +4,6 @@ from typing import (
     Any,
     ForwardRef,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -31,9 +30,9 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             )
         try:
             if inspect.isclass(self.value):
-                annotations = get_type_hints(self.value.__init__)
+                annotations = marsh.utils.get_attribute_types(self.value.__init__)
             else:
-                annotations = get_type_hints(self.value)
+                annotations = marsh.utils.get_attribute_types(self.value)
         except Exception:
             annotations = {}
         positional = {}
diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index a1d74c8..e635262 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -7,7 +7,6 @@ from typing import (
     Optional,
     Tuple,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -97,7 +96,7 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     ) -> None:
         super().__init__(*args, **kwargs)
         try:
-            annotations = get_type_hints(marsh.utils.get_type(self.value))
+            annotations = marsh.utils.get_attribute_types(marsh.utils.get_type(self.value))
         except Exception:
             annotations = {}
         schemas = {}
diff --git a/marsh/schema/types/namedtuple.py b/marsh/schema/types/namedtuple.py
index 38a2058..134bb62 100644
--- a/marsh/schema/types/namedtuple.py
+++ b/marsh/schema/types/namedtuple.py
@@ -4,7 +4,6 @@ from typing import (
     Any,
     Optional,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -73,7 +72,7 @@ class NamedTupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[
     ) -> None:
         super().__init__(*args, **kwargs)
         schemas = {}
-        annotations = get_type_hints(self.value)
+        annotations = marsh.utils.get_attribute_types(self.value)
         for field in self.value._fields:
             with marsh.errors.prepend(field):
                 schemas[field] = marsh.schema.UnmarshalSchema(
diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index de586cb..cc5e1b4 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -4,7 +4,6 @@ from typing import (
     Any,
     Sequence,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -32,10 +31,10 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         if hasattr(self.value, '__required_keys__'):
             keys = self.value.__required_keys__  # type: ignore
         elif self.value.__total__:  # type: ignore
-            keys = frozenset(get_type_hints(self.value))
+            keys = frozenset(marsh.utils.get_attribute_types(self.value))
         else:
             keys = frozenset()
-        ordered_keys = tuple(get_type_hints(self.value))
+        ordered_keys = tuple(marsh.utils.get_attribute_types(self.value))
         return sorted(keys, key=lambda x: ordered_keys.index(x))
 
     @functools.cached_property
@@ -45,10 +44,10 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         if hasattr(self.value, '__optional_keys__'):
             keys = self.value.__optional_keys__  # type: ignore
         elif not self.value.__total__:  # type: ignore
-            keys = frozenset(get_type_hints(self.value))
+            keys = frozenset(marsh.utils.get_attribute_types(self.value))
         else:
             keys = frozenset()
-        ordered_keys = tuple(get_type_hints(self.value))
+        ordered_keys = tuple(marsh.utils.get_attribute_types(self.value))
         return sorted(keys, key=lambda x: ordered_keys.index(x))
 
     def __init__(
@@ -58,7 +57,7 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     ) -> None:
         super().__init__(*args, **kwargs)
         self._sentinel = _Sentinel()
-        annotations = get_type_hints(self.value)
+        annotations = marsh.utils.get_attribute_types(self.value)
         self.schemas = types.MappingProxyType(
             {
                 **{
diff --git a/marsh/utils.py b/marsh/utils.py
index 07d109d..b073e1e 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -59,6 +59,7 @@ _LiteralTypes: list = []
 _LiteralStringTypes: list = []
 _TypeAliasTypes: list = []
 _IsTypedDict: list = []
+_TypedDictQualifiers: list = []
 
 
 for module in (typing, typing_extensions):
@@ -69,6 +70,9 @@ for module in (typing, typing_extensions):
         ('LiteralString', _LiteralStringTypes),
         ('TypeAlias', _TypeAliasTypes),
         ('is_typeddict', _IsTypedDict),
+        ('Required', _TypedDictQualifiers),
+        ('NotRequired', _TypedDictQualifiers),
+        ('ReadOnly', _TypedDictQualifiers),
     ):
         try:
             container.append(getattr(module, attr))
@@ -2321,6 +2325,36 @@ def _get_attribute_description(
     return None
 
 
+def get_attribute_types(
+    value: Any,
+) -> Dict[str, Any]:
+    """Get the types of the attributes of a class or
+    the arguments of a function.
+
+    Unlike :func:`typing.get_type_hints` any annotations
+    (:data:`typing.Annotated`) are kept.
+
+    Arguments:
+        value: The class or function.
+
+    Returns:
+        The type of each attribute or argument.
+    """
+    def drop_qualifiers(type_: Any) -> Any:
+        if get_origin(type_) in _TypedDictQualifiers:
+            return drop_qualifiers(get_args(type_)[0])
+        if is_annotated(type_):
+            inner, *annotations = get_args(type_)
+            return Annotated[(drop_qualifiers(inner), *annotations)]
+        return type_
+
+    return {
+        name: drop_qualifiers(type_)
+        for name, type_
+        in typing_extensions.get_type_hints(value, include_extras=True).items()
+    }
+
+
 def get_attribute_description(
     cls,
     name: str,
-- 
2.43.0


From 38505e407fa42a150fb7ce4200ec9c5cfba51b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:54 +0000
Subject: [PATCH 32/66] fix: use schemas registered after a type was first
 built

---
 marsh/schema/core/unmarshal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 33e3168..9819646 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -175,14 +175,19 @@ class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
         Type['UnmarshalSchema'],
     ]:
         def wrapper(_schema):
-            self.cache_clear()
-            return self.priority.add(
+            self.priority.add(
                 _schema,
                 priority=priority,
                 lower_priority=lower_priority,
                 higher_priority=higher_priority,
                 replace=replace,
             )
+            self.cache_clear()
+            # the new schema might also match
+            # types which have already been built.
+            _schema._cached_build.cache_clear()
+            _schema._recursive_cache.clear()
+            return _schema
         if schema is None:
             return wrapper
         return wrapper(schema)
-- 
2.43.0


From 6a842797a5c35c8f040194440cadace390aef87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:10 +0000
Subject: [PATCH 33/66] fix: raise ValueError when an int is too large for a
 float

---
 marsh/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index b073e1e..b56bd19 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2145,7 +2145,10 @@ def cast_primitive(
         value = str_to_int(value)
     if issubclass(type_, int) and isinstance(value, float):
         value = float_to_int(value)
-    return type_(value)
+    try:
+        return type_(value)
+    except OverflowError as err:
+        raise ValueError(f'could not convert to {type_.__name__}: {err}') from err
 
 
 def cast_literal(
-- 
2.43.0


From 87d1394897e1feeb0b219eead7d84508c0c31f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:58 +0000
Subject: [PATCH 34/66] fix: refuse circular priorities before changing the
 order

---
 marsh/utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index b56bd19..b983d9d 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1286,20 +1286,25 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
             )
 
             # does the value to be added already exist?
-            for i in range(len(self._values)):
-                if self._values[i].value == value:
+            values = list(self._values)
+            for i in range(len(values)):
+                if values[i].value == value:
                     if replace:
-                        del self._values[i]
+                        del values[i]
                         break
                     raise ValueError(
                         f'{wrapped} already exists.',
                     )
 
+            # refuse circular priorities before changing anything.
+            for position in values:
+                wrapped.relative_priority.get_relation(position.relative_priority)
+
             # find insertion index for value based on priorities.
             # circular priorities with a length larger than 1 do
             # not raise an error.
             idx = 0
-            for i, position in enumerate(self._values):
+            for i, position in enumerate(values):
                 if wrapped.relative_priority > position.relative_priority:
                     break
                 if (
@@ -1307,7 +1312,8 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
                     or wrapped.priority < position.priority
                 ):
                     idx = i + 1
-            self._values.insert(idx, wrapped)
+            values.insert(idx, wrapped)
+            self._values = values
             return value
         if value is None:
             return wrapper
-- 
2.43.0


From 691affd128b8f2651914f432b9899f2e07fe2c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 35/66] fix: do not replace a component through an older
 decorator

---
 marsh/schema/namespace.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 34183ca..b0a70cd 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -561,16 +561,22 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
             A decorator for registering the type if no
             type was given else the type itself.
         """
-        if name in self:
-            if not replace:
-                raise marsh.errors.MarshError(
-                    f'a component with the name "{name}" '
-                    'already exists',
-                )
+        def _assert_available() -> None:
+            if name in self:
+                if not replace:
+                    raise marsh.errors.MarshError(
+                        f'a component with the name "{name}" '
+                        'already exists',
+                    )
+
+        _assert_available()
 
         def _register(
             component: Type[_T],
         ) -> Type[_T]:
+            # the name may have been taken since this
+            # decorator was created.
+            _assert_available()
             if not issubclass(component, self.base):
                 raise ValueError(
                     'registered component must be '
-- 
2.43.0


From 698d2ceede19428281d9832479e8bb40097475fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 36/66] fix: do not share cached schemas between equal
 instances

---
 marsh/schema/core/unmarshal.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 9819646..9bf36f5 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -106,22 +106,30 @@ def resolve_type(
     return value
 
 
-def has_union(
+def has_ambiguous_equality(
     value: Any,
 ) -> bool:
-    """Determine if a type is a union or has a union
-    somewhere in its arguments.
+    """Determine if a type may be equal to another type
+    that is not unmarshaled in the same way.
+
+    Unions are equal regardless of the order of their types
+    and instances (enum members, callable objects) may define
+    their own equality.
 
     Arguments:
         value: The type to evaluate.
 
     Returns:
-        ``True`` if there is a union, else ``False``.
+        ``True`` if this applies to the type itself or
+        somewhere in its arguments, else ``False``.
     """
-    return (
-        marsh.utils.is_union(value)
-        or any(map(has_union, get_args(value)))
-    )
+    if marsh.utils.is_union(value):
+        return True
+    if marsh.utils.is_literal(value):
+        return False
+    if marsh.utils.is_obj_instance(value):
+        return type(value).__eq__ is not object.__eq__
+    return any(map(has_ambiguous_equality, get_args(value)))
 
 
 class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
@@ -253,8 +261,8 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
         metacls: 'UnmarshalSchemaMeta' = type(cls)
         value = resolve_type(value, cache=metacls.type_cache)
         # equal keys do not always give equal schemas, i.e. the order of
-        # union types and default values such as 1, 1.0 and True
-        if args or kwargs or has_union(value):
+        # union types and values such as 1, 1.0 and True
+        if args or kwargs or has_ambiguous_equality(value):
             return cls._build(
                 value=value,
                 *args,
-- 
2.43.0


From 7faafe2a604eb20c61cfae789ff88bed38331e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 37/66] fix: do not share cached schemas between literals with
 values in different order

---
 marsh/schema/core/unmarshal.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 9bf36f5..7a2e179 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -112,9 +112,9 @@ def has_ambiguous_equality(
     """Determine if a type may be equal to another type
     that is not unmarshaled in the same way.
 
-    Unions are equal regardless of the order of their types
-    and instances (enum members, callable objects) may define
-    their own equality.
+    Unions and literals are equal regardless of the order of
+    their types or values and instances (enum members, callable
+    objects) may define their own equality.
 
     Arguments:
         value: The type to evaluate.
@@ -123,10 +123,8 @@ def has_ambiguous_equality(
         ``True`` if this applies to the type itself or
         somewhere in its arguments, else ``False``.
     """
-    if marsh.utils.is_union(value):
+    if marsh.utils.is_union(value) or marsh.utils.is_literal(value):
         return True
-    if marsh.utils.is_literal(value):
-        return False
     if marsh.utils.is_obj_instance(value):
         return type(value).__eq__ is not object.__eq__
     return any(map(has_ambiguous_equality, get_args(value)))
-- 
2.43.0


From 90742360292c2bf09a00996b8c823a31f801bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 38/66] fix: resolve forward references of schemas built before
 the caches were cleared

---
 marsh/schema/core/unmarshal.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 7a2e179..44d0752 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -317,7 +317,6 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
         cls.registry.cache_clear()
         cls._cached_build.cache_clear()  # type: ignore
         cls._recursive_cache.clear()
-        cls.type_cache.clear()
 
     def cache_info(
         cls,  # noqa: B902
-- 
2.43.0


From d04a05542e47be0a6e34ddc9eebcd3ff0ec066b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 39/66] fix: resolve forward references inside of type hints in
 the module they are written in

---
 marsh/schema/template/callable.py |  2 ++
 marsh/schema/types/dataclass.py   |  3 +--
 marsh/utils.py                    | 31 ++++++++++++++++++++++++++++++-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 93957cf..6581c32 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -46,6 +46,8 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
                 or isinstance(param.annotation, (str, ForwardRef))
             ):
                 type_ = annotations.get(name, Any)
+            elif marsh.utils.has_forward_ref(param.annotation):
+                type_ = annotations.get(name, param.annotation)
             else:
                 type_ = param.annotation
             default = marsh.MISSING
diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index e635262..d6d9f56 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -3,7 +3,6 @@ import re
 import types
 from typing import (
     Any,
-    ForwardRef,
     Optional,
     Tuple,
     TypeVar,
@@ -105,7 +104,7 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
             type_: Any,
         ) -> Any:
             try:
-                if isinstance(type_, (str, ForwardRef)):
+                if marsh.utils.has_forward_ref(type_):
                     type_ = annotations.get(field.name, type_)
             except Exception:
                 pass
diff --git a/marsh/utils.py b/marsh/utils.py
index b983d9d..b0020cb 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -20,6 +20,7 @@ from typing import (
     DefaultDict,
     Dict,
     Final,
+    ForwardRef,
     Generic,
     Iterable,
     Iterator,
@@ -2350,6 +2351,8 @@ def get_attribute_types(
         The type of each attribute or argument.
     """
     def drop_qualifiers(type_: Any) -> Any:
+        if isinstance(type_, dataclasses.InitVar):
+            return drop_qualifiers(type_.type)
         if get_origin(type_) in _TypedDictQualifiers:
             return drop_qualifiers(get_args(type_)[0])
         if is_annotated(type_):
@@ -2357,13 +2360,39 @@ def get_attribute_types(
             return Annotated[(drop_qualifiers(inner), *annotations)]
         return type_
 
+    hints = typing_extensions.get_type_hints(
+        value,
+        # forward references are shared between equal hints of different
+        # modules, without this the value from another module may be used.
+        localns=None if inspect.isclass(value) else {},
+        include_extras=True,
+    )
     return {
         name: drop_qualifiers(type_)
         for name, type_
-        in typing_extensions.get_type_hints(value, include_extras=True).items()
+        in hints.items()
     }
 
 
+def has_forward_ref(
+    value: Any,
+) -> bool:
+    """Determine if a type hint is or contains a forward reference.
+
+    Arguments:
+        value: The type hint to evaluate.
+
+    Returns:
+        ``True`` if value is a string or :class:`typing.ForwardRef`,
+        or if any of the arguments of its type is.
+    """
+    if isinstance(value, (str, ForwardRef)):
+        return True
+    if is_literal(value):
+        return False
+    return any(map(has_forward_ref, get_args(value)))
+
+
 def get_attribute_description(
     cls,
     name: str,
-- 
2.43.0


From 89b4e17a33ac2189fbe079f7d498b882898dbc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 40/66] fix: evaluate forward references on python 3.12

---
 marsh/schema/core/unmarshal.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 44d0752..6f77237 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -2,10 +2,13 @@ import collections
 import dataclasses
 import importlib
 import threading
+import types
+import typing_extensions
 from typing import (
     Any,
     Callable,
     DefaultDict,
+    Dict,
     ForwardRef,
     Generic,
     Iterable,
@@ -43,6 +46,18 @@ skip_cache_types = {
 }
 
 
+def evaluate_forward_ref(
+    ref: ForwardRef,
+    namespace: Dict[str, Any],
+) -> Any:
+    return typing_extensions.get_type_hints(
+        types.SimpleNamespace(__annotations__={'ref': ref}),
+        globalns=namespace,
+        localns={},
+        include_extras=True,
+    )['ref']
+
+
 def resolve_forward_ref(
     ref: ForwardRef,
     cache: Iterable[Any],
@@ -53,9 +68,9 @@ def resolve_forward_ref(
         mod, _, name = name.rpartition('.')
     if mod:
         try:
-            return ref._evaluate(
+            return evaluate_forward_ref(
+                ref,
                 vars(importlib.import_module(mod)),
-                None,
             )
         except Exception:
             pass
@@ -64,13 +79,13 @@ def resolve_forward_ref(
             return type_
         if hasattr(type_, '__module__'):
             try:
-                return ref._evaluate(
+                return evaluate_forward_ref(
+                    ref,
                     vars(
                         importlib.import_module(
                             type_.__module__ + (f'.{mod}' if mod else ''),
                         ),
                     ),
-                    None,
                 )
             except Exception:
                 pass
-- 
2.43.0


From 685ff3b07b249ff27ecef5c775a81f9db2f5243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 41/66] fix: report ambiguous configs with braces in their name

---
 marsh/config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/marsh/config.py b/marsh/config.py
index d83b550..8e6aedd 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -208,9 +208,8 @@ def find_config(
         if len(paths) > 1:
             raise marsh.errors.ConfigFileError(
                 f'ambiguous config "{target}" was resolved '
-                'to more than one file: {}'.format(
-                    ', '.join(f'"{os.path.basename(path)}"' for path in paths),
-                ),
+                'to more than one file: '
+                + ', '.join(f'"{os.path.basename(path)}"' for path in paths),
             )
         return paths[0]
     err_msg = (
-- 
2.43.0


From 0263ddf3c863ffb6148dd3463eea2700d7bb2f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 42/66] fix: find configs of types registered after they were
 first looked for

---
 marsh/config.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 8e6aedd..b9bb122 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -222,7 +222,6 @@ def find_config(
     raise marsh.errors.ConfigFileError(err_msg)
 
 
-@marsh.utils.cache(maxsize=32, safe=False)
 def config_type_is_supported(
     path: str,
 ) -> bool:
-- 
2.43.0


From 0d3d4b7fcb9ad479b7e168c1e014ed005370dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 43/66] fix: treat paths without fields as the root

---
 marsh/element.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/marsh/element.py b/marsh/element.py
index 56ca2e0..7577a30 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -73,9 +73,9 @@ def iterative_select(
         path='',
         remaining_path=path,
     )
-    if not path:
-        return
     field, remaining_path = marsh.path.head(path)
+    if not field:
+        return
     if marsh.utils.is_mapping(element):
         if field not in element:
             raise marsh.errors.PathError(field)
@@ -219,7 +219,8 @@ def override(
     Returns:
         A copy of the element with a new value set for the specified path.
     """
-    if not path:
+    field, remaining_path = marsh.path.head(path)
+    if not field:
         if combine:
             if (
                 marsh.utils.is_mapping(element)
@@ -235,7 +236,6 @@ def override(
             ):
                 return tuple(element) + tuple(value)
         return value
-    field, remaining_path = marsh.path.head(path)
     if marsh.utils.is_missing(element):
         element = {}
     if marsh.utils.is_mapping(element):
@@ -296,6 +296,8 @@ def remove(
     if not path:
         raise ValueError('no path specified')
     field, remaining_path = marsh.path.head(path)
+    if not field:
+        raise marsh.errors.PathError('no path specified')
     if marsh.utils.is_mapping(element):
         if field not in element:
             raise marsh.errors.PathError(field)
-- 
2.43.0


From 2887b83580b857bb62fe2ad72cf0c064e337c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:41 +0000
Subject: [PATCH 44/66] fix: allow keyword arguments together with variable
 arguments when calling entry points

---
 marsh/schema/template/structured.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 97bfce5..aa1a00c 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -61,8 +61,10 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
         kwargs: Optional[Mapping[str, Any]] = None,
     ) -> None:
         if args and kwargs:
-            for i, name in enumerate(self.schemas):
-                if i < len(args) and name in kwargs:
+            for name, _ in zip(self.schemas, args):
+                if name.startswith('*'):
+                    break
+                if name in kwargs:
                     raise TypeError(
                         'received the same argument twice '
                         'through `default_args` and '
-- 
2.43.0


From e1f2d6d41f6c3e20a0c9f5e08fc3ade0864bbb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 45/66] fix: report output directories that can not be created

---
 marsh/entry_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index 79f11f5..bcb6ed7 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -226,7 +226,7 @@ class EntryPoint:
                 print(f'failed to create output directory {path}: {error}')
                 sys.exit(1)
 
-            with marsh.errors.maybe_handle_error(handle_create_dir_error):
+            with marsh.errors.maybe_handle_error(handle_create_dir_error, OSError):
                 os.makedirs(path, exist_ok=True)
             os.chdir(path)
         try:
-- 
2.43.0


From 9efb8f02d78dcf37ea1547e5bf278a4795dd9ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 46/66] fix: document every default value given in a call

---
 marsh/schema/template/structured.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index aa1a00c..867a319 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -132,7 +132,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
         default_args = list(default_args or ())
         default_kwargs = dict(default_kwargs or {})
         fields: Dict[str, UnmarshalSchema.Doc.Field] = {}
-        for i, (name, schema) in enumerate(self.schemas.items()):
+        for name, schema in self.schemas.items():
             fields[name] = UnmarshalSchema.Doc.Field(
                 doc=schema.doc(depth - 1),
                 type=schema.doc_field_type(),
@@ -150,7 +150,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                 if default_args:
                     default = str(default_args)
                     default_args = []
-            if i < len(default_args):
+            elif default_args:
                 default = str(default_args.pop(0))
             if name in default_kwargs:
                 default = str(default_kwargs.pop(name))
-- 
2.43.0


From 37879a0ff9ced398cc27f3d174dd1b69653095b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 47/66] fix: share the schemas of fields without a default
 value

---
 marsh/schema/core/unmarshal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 6f77237..d6bffc5 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -275,7 +275,11 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
         value = resolve_type(value, cache=metacls.type_cache)
         # equal keys do not always give equal schemas, i.e. the order of
         # union types and values such as 1, 1.0 and True
-        if args or kwargs or has_ambiguous_equality(value):
+        if (
+            args
+            or any(not marsh.utils.is_missing(v) for v in kwargs.values())
+            or has_ambiguous_equality(value)
+        ):
             return cls._build(
                 value=value,
                 *args,
-- 
2.43.0


From eced4066ff6e492baa1f41a4d72d6b7320d4ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 48/66] fix: keep the first line of descriptions within the
 width

---
 marsh/doc/terminal.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/marsh/doc/terminal.py b/marsh/doc/terminal.py
index 2688e9d..54a7b3a 100644
--- a/marsh/doc/terminal.py
+++ b/marsh/doc/terminal.py
@@ -44,18 +44,17 @@ def format_terminal_value(
     if not description:
         return value
     fill_indent = ' ' * description_indent
-    fill_init_indent = fill_indent
-    value_len = len(value.split('\n')[-1])
-    if description_indent - value_len >= description_margin:
-        fill_init_indent = fill_indent[value_len:]
-    else:
-        value = f'{value}\n'
     description = textwrap.fill(
         text=description,
         width=width,
-        initial_indent=fill_init_indent,
+        initial_indent=fill_indent,
         subsequent_indent=fill_indent,
     )
+    value_len = len(value.split('\n')[-1])
+    if description_indent - value_len >= description_margin:
+        description = description[value_len:]
+    else:
+        value = f'{value}\n'
     return f'{value}{description}'
 
 
-- 
2.43.0


From f58be1353e8e1d10015f42c284f180d47eeeabc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 49/66] fix: UnmarshalSchema.cache_info reports the cache of
 matched schemas

---
 marsh/schema/core/unmarshal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index d6bffc5..6a7ae7a 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -155,7 +155,7 @@ class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
     def cache_info(
         self,
     ) -> marsh.utils.CacheInfo:
-        return self.match.cache_info,  # type: ignore
+        return self.match.cache_info()  # type: ignore
 
     @overload
     def register(
-- 
2.43.0


From 6a37b9ac7e4d7be4efe456919cf26214026bded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 50/66] fix: missing keys of DefaultDict[..., str] are empty
 strings

---
 marsh/schema/types/defaultdict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/defaultdict.py b/marsh/schema/types/defaultdict.py
index f17ad97..7f0d4f1 100644
--- a/marsh/schema/types/defaultdict.py
+++ b/marsh/schema/types/defaultdict.py
@@ -30,7 +30,7 @@ class InitType(Generic[_T]):
     ) -> _T:
         if self.input is not self._sentinel:
             return self.schema.unmarshal(self.input)
-        for self.input in (marsh.MISSING, 0, '', None):
+        for self.input in (marsh.MISSING, '', 0, None):
             try:
                 return self.schema.unmarshal(self.input)
             except Exception:
-- 
2.43.0


From 743be0c93ad6b75e775105c7a0ae3514e0d83a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 51/66] fix: config.tree shows the configs of subdirectories

---
 marsh/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/config.py b/marsh/config.py
index b9bb122..115fa37 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -250,8 +250,8 @@ def tree(
     for name in os.listdir(path):
         if os.path.isdir(os.path.join(path, name)):
             subtree = tree(os.path.join(path, name))
-            if subtree.count('\n') > 1:
-                subtrees.append(name)
+            if '\n' in subtree:
+                subtrees.append(subtree)
         else:
             if config_type_is_supported(name):
                 configs.append(name)
-- 
2.43.0


From a940a7c7332a4a94436e3ec6aaf120ddcad26f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 52/66] fix: components use the schemas registered at the time

---
 marsh/schema/namespace.py | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index b0a70cd..a03b403 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -383,7 +383,6 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         self.name = name
         self.base = base
         self.components = {}
-        self._schemas: Dict[str, core.unmarshal.UnmarshalSchema[_T]] = {}
         # when wrapping functions on an instance the `self`
         # argument is not included until the most inner
         # wrapped function is called which means that we
@@ -411,23 +410,21 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
                     key='name',
                 ),
             )
-        if name not in self._schemas:
-            # instead of picking out the matched
-            # schema types we need to run the normal
-            # constructor so that the type is cached.
-            # If not, the recursive tests for namespace
-            # components fail.
-            schema = marsh.schema.UnmarshalSchema[_T](
-                self.components[name],
-            )
-            # extract inner schema
-            while isinstance(
-                schema,
-                marsh.schema.types.namespace.NamespaceUnmarshalSchema,
-            ):
-                schema = schema.schema
-            self._schemas[name] = schema
-        return self._schemas[name]
+        # instead of picking out the matched
+        # schema types we need to run the normal
+        # constructor so that the type is cached.
+        # If not, the recursive tests for namespace
+        # components fail.
+        schema = marsh.schema.UnmarshalSchema[_T](
+            self.components[name],
+        )
+        # extract inner schema
+        while isinstance(
+            schema,
+            marsh.schema.types.namespace.NamespaceUnmarshalSchema,
+        ):
+            schema = schema.schema
+        return schema
 
     def __iter__(
         self,
@@ -449,7 +446,6 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         self,
     ) -> None:
         """Clear the cache."""
-        self._schemas.clear()
         self.find_class.cache_clear()  # type: ignore
         self.find_subclasses.cache_clear()  # type: ignore
 
-- 
2.43.0


From dbb26a44b7440735bcf8eed125b8849b9b1bce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 53/66] fix: documentation of a namespaced type lists its
 components

---
 marsh/schema/types/namespace.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/marsh/schema/types/namespace.py b/marsh/schema/types/namespace.py
index 117cd62..dd9a3ed 100644
--- a/marsh/schema/types/namespace.py
+++ b/marsh/schema/types/namespace.py
@@ -1,3 +1,4 @@
+import dataclasses
 from typing import (
     Any,
     Sequence,
@@ -89,6 +90,15 @@ class NamespaceUnmarshalSchema(marsh.schema.core.unmarshal.WrapperUnmarshalSchem
             },
         )
 
+    def doc(
+        self,
+        depth: int = 0,
+    ) -> marsh.schema.UnmarshalSchema.Doc:
+        return dataclasses.replace(
+            super().doc(depth),
+            special_fields=self.doc_special_fields(),
+        )
+
     def doc_special_fields(
         self,
     ) -> Sequence[marsh.schema.UnmarshalSchema.Doc.SpecialField]:
-- 
2.43.0


From e67c434ef6fba97944f3f77d83c796700f9055cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 54/66] fix: select below a component registered for its own
 base

---
 marsh/schema/namespace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index a03b403..8e2420d 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -421,7 +421,10 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         # extract inner schema
         while isinstance(
             schema,
-            marsh.schema.types.namespace.NamespaceUnmarshalSchema,
+            (
+                marsh.schema.types.namespace.NamespaceUnmarshalSchema,
+                core.unmarshal.RecursiveReferenceUnmarshalSchema,
+            ),
         ):
             schema = schema.schema
         return schema
-- 
2.43.0


From 1f08c5a15ee1de832867f4cd6d669d36f45c6654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 55/66] fix: a protocol never yields a value that does not
 implement it

---
 marsh/schema/types/protocol.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/types/protocol.py b/marsh/schema/types/protocol.py
index e16fa81..220ee80 100644
--- a/marsh/schema/types/protocol.py
+++ b/marsh/schema/types/protocol.py
@@ -94,9 +94,13 @@ class ProtocolUnmarshalSchema(marsh.schema.UnmarshalSchema[Any]):
             return self.get_default()
         for type_ in self.matched:
             try:
-                return marsh.unmarshal(type_, element)
+                value = marsh.unmarshal(type_, element)
             except Exception:
-                pass
+                continue
+            # an abstract base class may implement what the
+            # class of the value does not, e.g. `__hash__`
+            if isinstance(value, self.value):
+                return value
         raise marsh.errors.UnmarshalError(
             f'failed to unmarshal into one of the classes {self.matched}',
             element=element,
-- 
2.43.0


From de26729427a61f2ac5fe8a4ad95f0e62b3ace26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 56/66] fix: let classes inside of functions refer to
 themselves

---
 marsh/schema/template/callable.py |  5 ++++-
 marsh/utils.py                    | 28 +++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 6581c32..40f0dde 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -30,7 +30,10 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             )
         try:
             if inspect.isclass(self.value):
-                annotations = marsh.utils.get_attribute_types(self.value.__init__)
+                annotations = marsh.utils.get_attribute_types(
+                    self.value.__init__,
+                    owner=self.value,
+                )
             else:
                 annotations = marsh.utils.get_attribute_types(self.value)
         except Exception:
diff --git a/marsh/utils.py b/marsh/utils.py
index b0020cb..212d310 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2337,6 +2337,7 @@ def _get_attribute_description(
 
 def get_attribute_types(
     value: Any,
+    owner: Any = None,
 ) -> Dict[str, Any]:
     """Get the types of the attributes of a class or
     the arguments of a function.
@@ -2346,6 +2347,7 @@ def get_attribute_types(
 
     Arguments:
         value: The class or function.
+        owner: The class that the function is a method of.
 
     Returns:
         The type of each attribute or argument.
@@ -2360,13 +2362,25 @@ def get_attribute_types(
             return Annotated[(drop_qualifiers(inner), *annotations)]
         return type_
 
-    hints = typing_extensions.get_type_hints(
-        value,
-        # forward references are shared between equal hints of different
-        # modules, without this the value from another module may be used.
-        localns=None if inspect.isclass(value) else {},
-        include_extras=True,
-    )
+    try:
+        hints = typing_extensions.get_type_hints(
+            value,
+            # forward references are shared between equal hints of different
+            # modules, without this the value from another module may be used.
+            localns=None if inspect.isclass(value) else {},
+            include_extras=True,
+        )
+    except NameError:
+        # a class inside of a function may still refer to itself.
+        hints = typing_extensions.get_type_hints(
+            value,
+            localns={
+                cls.__name__: cls
+                for cls in reversed(getattr(owner or value, '__mro__', ()))
+                if '<locals>' in cls.__qualname__
+            },
+            include_extras=True,
+        )
     return {
         name: drop_qualifiers(type_)
         for name, type_
-- 
2.43.0


From babc69183b7ae289cc785126783056cba49b0af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 57/66] fix: find attribute descriptions of nested and local
 classes

---
 marsh/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 212d310..2103aa7 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -9,6 +9,7 @@ import inspect
 import os
 import shutil
 import sys
+import textwrap
 import weakref
 import types
 import typing
@@ -2308,7 +2309,8 @@ def _get_attribute_description(
         except Exception:
             pass
     try:
-        ast_body = ast.parse(inspect.getsource(cls)).body[0].body  # type: ignore
+        source = textwrap.dedent(inspect.getsource(cls))
+        ast_body = ast.parse(source).body[0].body  # type: ignore
     except Exception:
         return None
     node_iter = iter(ast_body)
-- 
2.43.0


From 3756ffdd687c8708dede0f0ea56809bc56554859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 58/66] fix: do not show generated docstrings of named tuples
 as descriptions

---
 marsh/schema/types/namedtuple.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/namedtuple.py b/marsh/schema/types/namedtuple.py
index 134bb62..98bf409 100644
--- a/marsh/schema/types/namedtuple.py
+++ b/marsh/schema/types/namedtuple.py
@@ -20,7 +20,12 @@ def is_generated_class_docstring(
     docstring: Optional[str],
 ) -> bool:
     if docstring:
-        return bool(re.match(r'^[a-zA-Z0-9_]+\(([a-zA-Z0-9_]+,)*\)$', docstring))
+        return bool(
+            re.match(
+                r'^[a-zA-Z0-9_]+\(([a-zA-Z0-9_]+, )*([a-zA-Z0-9_]+,?)?\)$',
+                docstring,
+            ),
+        )
     return False
 
 
-- 
2.43.0


From 67d3326524c24c400d8f4a2f36ec1f55ff7d9063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 59/66] fix: name the type in errors for logging levels that do
 not exist

---
 marsh/schema/types/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/logger.py b/marsh/schema/types/logger.py
index 8bad6a9..68b56ec 100644
--- a/marsh/schema/types/logger.py
+++ b/marsh/schema/types/logger.py
@@ -123,6 +123,6 @@ class LoggerUnmarshalSchema(marsh.schema.UnmarshalSchema[logging.Logger]):
                 raise marsh.errors.UnmarshalError(
                     f'could not set logging level to "{arg["level"]}"',
                     element=element,
-                    type=type,
+                    type=self.value,
                 )
         return logger
-- 
2.43.0


From 5f156f3245e28e9306ac634a32388ac54fb79333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 60/66] fix: hold the element and type that did not match in
 every unmarshal error

---
 marsh/schema/types/annotated.py | 4 ++++
 marsh/schema/types/namespace.py | 2 ++
 marsh/schema/types/primitive.py | 4 +++-
 marsh/schema/types/slice.py     | 8 +++++---
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/types/annotated.py b/marsh/schema/types/annotated.py
index 421794f..ef79dba 100644
--- a/marsh/schema/types/annotated.py
+++ b/marsh/schema/types/annotated.py
@@ -143,6 +143,8 @@ class AnnotatedUnmarshalSchema(marsh.schema.UnmarshalSchema[Any]):
                 raise marsh.errors.UnmarshalError(
                     f'custom pre-annotation {ann.__class__.__name__}'
                     f' failed: {err}',
+                    element=element,
+                    type=self.value,
                 ) from err
         value = self.schema.unmarshal(element)
         for ann in annotations:
@@ -154,5 +156,7 @@ class AnnotatedUnmarshalSchema(marsh.schema.UnmarshalSchema[Any]):
                 raise marsh.errors.UnmarshalError(
                     f'custom annotation {ann.__class__.__name__}'
                     f' failed: {err}',
+                    element=element,
+                    type=self.value,
                 ) from err
         return value
diff --git a/marsh/schema/types/namespace.py b/marsh/schema/types/namespace.py
index dd9a3ed..ba07ec8 100644
--- a/marsh/schema/types/namespace.py
+++ b/marsh/schema/types/namespace.py
@@ -151,6 +151,8 @@ class NamespaceUnmarshalSchema(marsh.schema.core.unmarshal.WrapperUnmarshalSchem
                 key='name',
             ),
             path='name',
+            element=name,
+            type=self.value,
         )
 
     def unmarshal(
diff --git a/marsh/schema/types/primitive.py b/marsh/schema/types/primitive.py
index 97f4a6b..5327911 100644
--- a/marsh/schema/types/primitive.py
+++ b/marsh/schema/types/primitive.py
@@ -104,7 +104,9 @@ class PrimitiveUnmarshalSchema(marsh.schema.UnmarshalSchema[_P]):
         if marsh.utils.is_missing(element):
             if self.has_default():
                 return self.get_default()
-            raise marsh.errors.MissingValueError
+            raise marsh.errors.MissingValueError(
+                type=self.value,
+            )
         if not marsh.utils.is_primitive(element):
             raise marsh.errors.UnmarshalError(
                 (
diff --git a/marsh/schema/types/slice.py b/marsh/schema/types/slice.py
index f282664..4311985 100644
--- a/marsh/schema/types/slice.py
+++ b/marsh/schema/types/slice.py
@@ -105,10 +105,12 @@ class SliceUnmarshalSchema(marsh.schema.UnmarshalSchema[slice]):
                 raise marsh.errors.UnmarshalError(
                     f'at most 3 optional integers may be used to construct a '
                     f'slice. Got {len(element)} values',
+                    element=element,
+                    type=self.value,
                 )
         else:
-            element = str(element)
-            if not slice_pattern.match(element):
+            text = str(element)
+            if not slice_pattern.match(text):
                 raise marsh.errors.UnmarshalError(
                     'invalid slice syntax',
                     element=element,
@@ -117,7 +119,7 @@ class SliceUnmarshalSchema(marsh.schema.UnmarshalSchema[slice]):
             args = tuple(
                 int(''.join(index.split())) if index.strip() else None
                 for index
-                in element.split(':')
+                in text.split(':')
             )
         if not args:
             return slice(None)
-- 
2.43.0


From 5cbf6fb4268db0613a56b7dea3ba4088fa30ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 61/66] fix: name annotated types by the type that is annotated

---
 marsh/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 2103aa7..22eafb3 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1971,7 +1971,7 @@ def get_type_name(
         The string representation of the value.
     """
     if is_annotated(value):
-        value = get_origin(value)
+        value = get_args(value)[0]
     if is_typing_alias(value):
         return str(value).replace('typing.', '')
     return getattr(get_type(value), '__name__', str(value))
-- 
2.43.0


From 62b47add340773ae94d868d88ba6c16834d26576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:29 +0000
Subject: [PATCH 62/66] fix: say that a value is missing in the error for it

---
 marsh/errors.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/marsh/errors.py b/marsh/errors.py
index a0d24d4..b6dbb33 100644
--- a/marsh/errors.py
+++ b/marsh/errors.py
@@ -131,7 +131,14 @@ class UnmarshalError(MarshError):
 
 class MissingValueError(UnmarshalError):
     """Required value is missing."""
-    pass
+
+    def __init__(
+        self,
+        msg: str = 'missing value',
+        *args,
+        **kwargs,
+    ) -> None:
+        super().__init__(msg, *args, **kwargs)
 
 
 class MarshalError(MarshError):
-- 
2.43.0


From cecf72b8eb4203532b38de4c2bc89e60abcd31fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:04 +0000
Subject: [PATCH 63/66] fix: types may be added or collected while the known
 types are iterated

---
 marsh/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 22eafb3..2ea99b2 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1351,7 +1351,8 @@ class WeakTypeCache:
     ) -> Iterator[Any]:
         data = getattr(self._types, 'data', None)
         if isinstance(data, dict):
-            for ref in reversed(data):
+            # types may be added or collected while iterating.
+            for ref in reversed(tuple(data)):
                 type_ = ref()
                 if type_ is not None:
                     yield type_
-- 
2.43.0


From 0e90280cf023ddd70fd06889c848fea40c63a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:16 +0000
Subject: [PATCH 64/66] fix: point at the right character in parse errors for
 long inputs

---
 marsh/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/parse.py b/marsh/parse.py
index 53d5a07..58f8061 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -69,7 +69,7 @@ class ParseError(marsh.errors.MarshError):
         source = self.source
         if index > 35:
             source = f'... {source[index - 35:]}'
-            index = index - 35 + 4
+            index = 35 + 4
         if len(source) > 70:
             source = f'{source[:70]} ...'
         return f'{rep}\n{source}\n{" " * index}^'
-- 
2.43.0


From 5ff6197eb26b153b3f685e5bb758e7f04ac4102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:46 +0000
Subject: [PATCH 65/66] fix: text of a schema that wraps a recursive type

---
 marsh/schema/core/unmarshal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 6a7ae7a..42af0c1 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -1,6 +1,7 @@
 import collections
 import dataclasses
 import importlib
+import reprlib
 import threading
 import types
 import typing_extensions
@@ -643,6 +644,7 @@ class WrapperUnmarshalSchema(
         super().__init__(*args, **kwargs)
         base.WrapperSchema.__init__(self, *args, **kwargs)
 
+    @reprlib.recursive_repr('<...>')
     def __str__(
         self,
     ) -> str:
-- 
2.43.0


From 7aae89f4bf841da76a875f312f33a4c8db1e9d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:43 +0000
Subject: [PATCH 66/66] fix: report what a container refuses when no value is
 given as an unmarshal error

---
 marsh/schema/template/mapping.py  | 2 +-
 marsh/schema/template/sequence.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/template/mapping.py b/marsh/schema/template/mapping.py
index c07ad22..74d5040 100644
--- a/marsh/schema/template/mapping.py
+++ b/marsh/schema/template/mapping.py
@@ -54,7 +54,7 @@ class MappingUnmarshalSchema(UnmarshalSchema[_T]):
         if marsh.utils.is_missing(element):
             if self.has_default():
                 return self.get_default()
-            return self.construct({})
+            element = {}
         if not marsh.utils.is_mapping(element):
             raise marsh.errors.UnmarshalError(
                 (
diff --git a/marsh/schema/template/sequence.py b/marsh/schema/template/sequence.py
index 91825ce..9ae249d 100644
--- a/marsh/schema/template/sequence.py
+++ b/marsh/schema/template/sequence.py
@@ -47,7 +47,7 @@ class SequenceUnmarshalSchema(UnmarshalSchema[_T]):
         if marsh.utils.is_missing(element):
             if self.has_default():
                 return self.get_default()
-            return self.construct(())
+            element = ()
         if not marsh.utils.is_sequence(element):
             raise marsh.errors.UnmarshalError(
                 (
-- 
2.43.0

