From 1e1710d021d87e7583042e05323f9aa5cb7001f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 01/26] fix: NaN and infinite floats in validation

NaN passed any min/max, schema.float(nan) rejected NaN, and a precision made
non-finite values raise from round().
---
 d42/validation/_validator.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index 9724c45..759fa69 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -1,7 +1,7 @@
 import re
 from copy import deepcopy
 from datetime import date, datetime
-from math import isclose
+from math import isclose, isinf, isnan
 from typing import Any, Callable, List, Optional, Type, cast
 from uuid import UUID
 
@@ -76,6 +76,20 @@ class Validator(SchemaVisitor[ValidationResult]):
             return ValueValidationError(path, value, expected_val)
         return None
 
+    def _is_float_equal(self, actual: float, expected: float, precision: Nilable[int]) -> bool:
+        if isnan(actual) or isnan(expected):
+            return isnan(actual) and isnan(expected)
+
+        if precision is Nil:
+            return isclose(actual, expected)
+
+        scale_factor = 10 ** cast(int, precision)
+        scaled_actual = actual * scale_factor
+        scaled_expected = expected * scale_factor
+        if isinf(scaled_actual) or isinf(scaled_expected):
+            return actual == expected
+        return round(scaled_actual) == round(scaled_expected)
+
     def _validate_elements(self,
                            path: PathHolder,
                            value: List[Any],
@@ -165,22 +179,15 @@ class Validator(SchemaVisitor[ValidationResult]):
             return result.add_error(error)
 
         if schema.props.value is not Nil:
-            if schema.props.precision is Nil:
-                if not isclose(value, schema.props.value):
-                    return result.add_error(ValueValidationError(path, value, schema.props.value))
-            else:
-                scale_factor = 10 ** schema.props.precision
-                scaled_actual = round(value * scale_factor)
-                scaled_expected = round(schema.props.value * scale_factor)
-                if not isclose(scaled_expected, scaled_actual, rel_tol=0, abs_tol=0):
-                    return result.add_error(ValueValidationError(path, value, schema.props.value))
+            if not self._is_float_equal(value, schema.props.value, schema.props.precision):
+                return result.add_error(ValueValidationError(path, value, schema.props.value))
 
         if schema.props.min is not Nil:
-            if value < schema.props.min:
+            if not (value >= schema.props.min):
                 result.add_error(MinValueValidationError(path, value, schema.props.min))
 
         if schema.props.max is not Nil:
-            if value > schema.props.max:
+            if not (value <= schema.props.max):
                 result.add_error(MaxValueValidationError(path, value, schema.props.max))
 
         return result
-- 
2.43.0


From 04463a107f36aca0d9e9e1ba8d82be2cb07d4f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:36 +0000
Subject: [PATCH 02/26] fix: reject min/max that a fixed NaN value cannot
 satisfy (or NaN bounds)

---
 d42/declaration/types/_float_schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/d42/declaration/types/_float_schema.py b/d42/declaration/types/_float_schema.py
index 607f444..a03ec32 100644
--- a/d42/declaration/types/_float_schema.py
+++ b/d42/declaration/types/_float_schema.py
@@ -67,7 +67,7 @@ class FloatSchema(Schema[FloatProps]):
         if self.props.min is not Nil:
             raise make_already_declared_error(self)
 
-        if (self.props.value is not Nil) and (value > self.props.value):
+        if (self.props.value is not Nil) and not (value <= self.props.value):
             raise make_incorrect_min_error(self, self.props.value, value)
 
         return self.__class__(self.props.update(min=value))
@@ -79,7 +79,7 @@ class FloatSchema(Schema[FloatProps]):
         if self.props.max is not Nil:
             raise make_already_declared_error(self)
 
-        if (self.props.value is not Nil) and (value < self.props.value):
+        if (self.props.value is not Nil) and not (value >= self.props.value):
             raise make_incorrect_max_error(self, self.props.value, value)
 
         return self.__class__(self.props.update(max=value))
-- 
2.43.0


From 18eb12219ad71ecb94a32b9a6d770190010cffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 03/26] fix: alphabet errors carry the path of the value; path
 keys are not copied

The path of an AlphabetValidationError was always empty.  Copying a path deep-copied
the dict keys in it, so a key compared by identity led nowhere and a key that cannot
be copied made validate() raise.
---
 d42/substitution/_validator.py |  5 ++---
 d42/validation/_formatter.py   |  4 ++--
 d42/validation/_validator.py   | 12 ++++++++----
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/d42/substitution/_validator.py b/d42/substitution/_validator.py
index 20cb90e..c15eb8c 100644
--- a/d42/substitution/_validator.py
+++ b/d42/substitution/_validator.py
@@ -1,4 +1,3 @@
-from copy import deepcopy
 from typing import Any
 
 from niltype import Nil, Nilable
@@ -48,7 +47,7 @@ class SubstitutorValidator(Validator):
             for index, elem in enumerate(value):
                 if is_ellipsis(elem) and (index == 0 or index == len(value) - 1):
                     continue
-                nested_path = deepcopy(path)[index]
+                nested_path = self._nested_path(path, index)
                 res = type_schema.__accept__(self, value=elem, path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             return result
@@ -74,7 +73,7 @@ class SubstitutorValidator(Validator):
             if key in value:
                 if is_ellipsis(value[key]):
                     continue
-                nested_path = deepcopy(path)[key]
+                nested_path = self._nested_path(path, key)
                 res = val.__accept__(self, value=value[key], path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
 
diff --git a/d42/validation/_formatter.py b/d42/validation/_formatter.py
index 362ed12..0bc326e 100644
--- a/d42/validation/_formatter.py
+++ b/d42/validation/_formatter.py
@@ -115,7 +115,7 @@ class Formatter(AbstractFormatter):
                 f"must match pattern {error.pattern!r}, but {error.actual_value!r} given")
 
     def format_missing_element_error(self, error: MissingElementValidationError) -> str:
-        path = deepcopy(error.path)
+        path = deepcopy(error.path, {id(x): x for x in error.path})
         formatted_path = self._format_path(path[error.index])
         return f"Element {formatted_path} does not exist"
 
@@ -124,7 +124,7 @@ class Formatter(AbstractFormatter):
         return f"Value{formatted_path} contains extra element at index {error.index!r}"
 
     def format_missing_key_error(self, error: MissingKeyValidationError) -> str:
-        path = deepcopy(error.path)
+        path = deepcopy(error.path, {id(x): x for x in error.path})
         formatted_path = self._format_path(path[error.missing_key])
         return f"Key {formatted_path} does not exist"
 
diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index 759fa69..1d9f5fc 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -64,6 +64,10 @@ class Validator(SchemaVisitor[ValidationResult]):
     def make_path(self) -> PathHolder:
         return self._path_holder_factory()
 
+    def _nested_path(self, path: PathHolder, key: Any) -> PathHolder:
+        # the operands of the path are keys of the value and must not be copied
+        return deepcopy(path, {id(x): x for x in path})[key]
+
     def _validate_type(self, path: PathHolder, value: Any,
                        expected_type: Type[Any]) -> Optional[ValidationError]:
         if not isinstance(value, expected_type):
@@ -105,7 +109,7 @@ class Validator(SchemaVisitor[ValidationResult]):
                 errors.append(MissingElementValidationError(path, value, real_index))
                 break
             else:
-                nested_path = deepcopy(path)[real_index]
+                nested_path = self._nested_path(path, real_index)
                 res = element_schema.__accept__(self, value=val, path=nested_path, **kwargs)
                 errors += res.get_errors()
         return errors
@@ -231,7 +235,7 @@ class Validator(SchemaVisitor[ValidationResult]):
             for letter in value:
                 if letter not in alphabet:
                     return result.add_error(
-                        AlphabetValidationError(PathHolder(), value, schema.props.alphabet))
+                        AlphabetValidationError(path, value, schema.props.alphabet))
 
         return result
 
@@ -263,7 +267,7 @@ class Validator(SchemaVisitor[ValidationResult]):
         if schema.props.type is not Nil:
             type_schema = schema.props.type
             for index, elem in enumerate(value):
-                nested_path = deepcopy(path)[index]
+                nested_path = self._nested_path(path, index)
                 res = type_schema.__accept__(self, value=elem, path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             return result
@@ -319,7 +323,7 @@ class Validator(SchemaVisitor[ValidationResult]):
             if is_ellipsis(key):
                 continue
             if key in value:
-                nested_path = deepcopy(path)[key]
+                nested_path = self._nested_path(path, key)
                 res = val.__accept__(self, value=value[key], path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             else:
-- 
2.43.0


From 7738534cef1b2adb1570d9ffffad2e507b2bbca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 04/26] fix: random_float keeps generated floats within [start,
 end] and finite

---
 d42/generation/_random.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/d42/generation/_random.py b/d42/generation/_random.py
index aeb3873..a31cb01 100644
--- a/d42/generation/_random.py
+++ b/d42/generation/_random.py
@@ -1,4 +1,6 @@
 import random
+import sys
+from math import isinf
 from typing import Any, List, Sequence, TypeVar, cast
 
 from niltype import Nil, Nilable
@@ -21,14 +23,26 @@ class Random:
             raise ValueError("random_float: start must be <= end")
 
         if precision is Nil:
-            return random.uniform(start, end)
+            return self._random_uniform(start, end)
 
         scale_factor = 10 ** precision
+        if isinf(start * scale_factor) or isinf(end * scale_factor):
+            return self._random_uniform(start, end)
         left_number = int(start * scale_factor)
         right_number = int(end * scale_factor)
 
         result = cast(float, self.random_int(left_number, right_number) / scale_factor)
-        return round(result, precision)
+        return min(max(round(result, precision), start), end)
+
+    def _random_uniform(self, start: float, end: float) -> float:
+        if start == end:
+            return start
+        if not isinf(end - start):
+            return random.uniform(start, end)
+        # the width of the range is not a finite number
+        left = max(start, -sys.float_info.max)
+        right = min(end, sys.float_info.max)
+        return min(max(random.uniform(left / 2, right / 2) * 2, left), right)
 
     def random_str(self, length: int, alphabet: str) -> str:
         return "".join(random.choice(alphabet) for _ in range(length))
-- 
2.43.0


From 6bed5e83bc8347f1e7a9fbe3719f77a56a791dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:00 +0000
Subject: [PATCH 05/26] fix: generate within declared bounds and lengths that
 lie beyond the defaults

---
 d42/generation/_generator.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index ac1b55b..37ab3fa 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -70,6 +70,10 @@ class Generator(SchemaVisitor[Any]):
 
         min_value = schema.props.min if (schema.props.min is not Nil) else INT_MIN
         max_value = schema.props.max if (schema.props.max is not Nil) else INT_MAX
+        if schema.props.min is Nil:
+            min_value = min(min_value, max_value)
+        if schema.props.max is Nil:
+            max_value = max(min_value, max_value)
         return self._random.random_int(min_value, max_value)
 
     def visit_float(self, schema: FloatSchema, **kwargs: Any) -> float:
@@ -78,6 +82,10 @@ class Generator(SchemaVisitor[Any]):
 
         min_value = schema.props.min if (schema.props.min is not Nil) else FLOAT_MIN
         max_value = schema.props.max if (schema.props.max is not Nil) else FLOAT_MAX
+        if schema.props.min is Nil:
+            min_value = min(min_value, max_value)
+        if schema.props.max is Nil:
+            max_value = max(min_value, max_value)
         precision = schema.props.precision if (schema.props.precision is not Nil) else Nil
 
         if precision is not Nil:
@@ -100,6 +108,10 @@ class Generator(SchemaVisitor[Any]):
             if schema.props.substr is not Nil:
                 min_length = max(min_length, len(schema.props.substr))
                 max_length = max(max_length, len(schema.props.substr))
+            if schema.props.max_len is Nil:
+                max_length = max(min_length, max_length)
+            if schema.props.alphabet == "":
+                max_length = min_length
             length = self._random.random_int(min_length, max_length)
 
         if schema.props.alphabet is not Nil:
@@ -122,7 +134,15 @@ class Generator(SchemaVisitor[Any]):
                 if is_ellipsis(elem):
                     continue
                 elements.append(elem.__accept__(self, **kwargs))
-            return elements
+            if len(elements) == len(schema.props.elements):
+                return elements
+            length = schema.props.len if (schema.props.len is not Nil) else schema.props.min_len
+            if length is Nil:
+                return elements
+            rest: List[Any] = [[] for _ in range(length - len(elements))]
+            if is_ellipsis(schema.props.elements[0]):
+                return rest + elements
+            return elements + rest
 
         is_length_specified = False
         if schema.props.len is not Nil:
@@ -137,6 +157,8 @@ class Generator(SchemaVisitor[Any]):
             if schema.props.max_len is not Nil:
                 max_length = schema.props.max_len
                 is_length_specified = True
+            else:
+                max_length = max(min_length, max_length)
             length = self._random.random_int(min_length, max_length)
 
         if schema.props.type is not Nil:
-- 
2.43.0


From f2f8a041c10534fd85bbc08c9531bef46334984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 06/26] fix: substitution into any without a matching
 alternative raises SubstitutionError

---
 d42/substitution/_substitutor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 93f4c15..360c7e6 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -204,6 +204,8 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     pass
                 else:
                     types.append(substituted)
+            if len(types) == 0:
+                raise SubstitutionError(f"Can't substitute {value!r}")
         return schema.__class__(schema.props.update(types=tuple(types)))
 
     def visit_bytes(self, schema: BytesSchema, *, value: Any = Nil, **kwargs: Any) -> BytesSchema:
-- 
2.43.0


From a4b9a2e5a5998293911d9b4d29360a881ba5936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 07/26] fix: substitution into a contains-list without a
 matching window raises SubstitutionError

---
 d42/substitution/_substitutor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 360c7e6..cbdbe96 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -144,6 +144,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     pass
                 else:
                     return schema.__class__(schema.props.update(elements=substituted))
+            raise SubstitutionError(f"Can't substitute {value!r}")
 
         # head
         if (len(elements) >= 2) and is_ellipsis(elements[-1]):
-- 
2.43.0


From 9bc9725fad7e92c0e30359133d7f29d545fccd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 08/26] fix: substitution of `...` in the middle of a list
 raises SubstitutionError

---
 d42/substitution/_substitutor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index cbdbe96..c99e567 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -113,6 +113,8 @@ class Substitutor(SchemaVisitor[GenericSchema]):
 
         if len(value) > 0 and all(is_ellipsis(x) for x in value):
             raise SubstitutionError("Can't substitute all ...")
+        if any(is_ellipsis(x) for x in value[1:-1]):
+            raise SubstitutionError("`...` must be first or last element")
 
         if (schema.props.elements is Nil) and (schema.props.type is Nil):
             elements = []
@@ -132,7 +134,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
             return schema.__class__(schema.props.update(elements=elements, type=Nil))
 
         elements = cast(List[GenericSchema], schema.props.elements)
-        if ... in value:
+        if any(is_ellipsis(x) for x in value):
             raise SubstitutionError("Can't substitute ...")
 
         # body
-- 
2.43.0


From 9ca8116e7351f02f6391dc6d9f30cad219386ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 09/26] fix: substitution of `...` into an untyped dict gives a
 usable schema

---
 d42/substitution/_substitutor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index c99e567..1fc0898 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -171,7 +171,13 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         keys: Dict[Any, Any] = {}
         if schema.props.keys is Nil or (len(schema.props.keys) == 1 and ... in schema.props.keys):
             for key, val in value.items():
-                keys[key] = (... if is_ellipsis(val) else self._from_native(val), False)
+                if is_ellipsis(key):
+                    if not is_ellipsis(val):
+                        raise SubstitutionError("Can't substitute ...")
+                    keys[key] = (..., False)
+                else:
+                    keys[key] = (AnySchema() if is_ellipsis(val) else self._from_native(val),
+                                 False)
             if (schema.props.keys is not Nil) and (... in schema.props.keys):
                 keys[...] = (..., False)
         else:
-- 
2.43.0


From 815c5ceb1ab653742efa77d51a32023a29b40563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 10/26] fix: substitution keeps the fixed value of a float
 schema

---
 d42/substitution/_substitutor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 1fc0898..85f7713 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -77,6 +77,9 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         result = schema.__accept__(self._validator, value=value)
         if result.has_errors():
             raise make_substitution_error(result, self._formatter)
+        if schema.props.value is not Nil:
+            # the given value may differ from the fixed one within the float tolerance
+            return schema.__class__(schema.props)
         return schema.__class__(schema.props.update(value=value))
 
     def visit_str(self, schema: StrSchema, *, value: Any = Nil, **kwargs: Any) -> StrSchema:
-- 
2.43.0


From bc412f08cb28bcf3aa16c6d92a6478e3008cc88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 11/26] fix: from_native refuses dicts with `...` or optional
 keys

---
 d42/utils/_from_native.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d42/utils/_from_native.py b/d42/utils/_from_native.py
index b281e5f..c11b371 100644
--- a/d42/utils/_from_native.py
+++ b/d42/utils/_from_native.py
@@ -2,6 +2,7 @@ from datetime import date, datetime
 from typing import Any
 from uuid import UUID
 
+from d42.declaration._is_ellipsis import is_ellipsis
 from d42.declaration.types import (
     BoolSchema,
     BytesSchema,
@@ -15,6 +16,7 @@ from d42.declaration.types import (
     NoneSchema,
     StrSchema,
     UUID4Schema,
+    optional,
 )
 
 __all__ = ("from_native",)
@@ -34,6 +36,8 @@ def from_native(value: Any) -> GenericSchema:
     elif isinstance(value, list):
         return ListSchema()([from_native(x) for x in value])
     elif isinstance(value, dict):
+        if any(is_ellipsis(key) or isinstance(key, optional) for key in value):
+            raise ValueError(value)
         return DictSchema()({key: from_native(val) for key, val in value.items()})
     elif isinstance(value, bytes):
         return BytesSchema()(value)
-- 
2.43.0


From 94456f233432a0f271f3764047e2d3166e3bf298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:12 +0000
Subject: [PATCH 12/26] fix: error messages for values that cannot be
 represented

Formatting a validation, substitution or declaration error called repr() on
values for which it raises (e.g. ints beyond the limit for string conversion),
so the ValueError escaped instead of the error being reported.
---
 d42/declaration/_safe_repr.py         | 14 +++++++++
 d42/declaration/errors/__init__.py    | 32 +++++++++++--------
 d42/declaration/types/_dict_schema.py |  5 +--
 d42/substitution/_substitutor.py      |  9 +++---
 d42/utils/_make_required.py           |  7 +++--
 d42/validation/_formatter.py          | 45 +++++++++++++++++----------
 6 files changed, 74 insertions(+), 38 deletions(-)
 create mode 100644 d42/declaration/_safe_repr.py

diff --git a/d42/declaration/_safe_repr.py b/d42/declaration/_safe_repr.py
new file mode 100644
index 0000000..acb2cc4
--- /dev/null
+++ b/d42/declaration/_safe_repr.py
@@ -0,0 +1,14 @@
+from typing import Any
+
+__all__ = ("safe_repr",)
+
+
+def safe_repr(value: Any) -> str:
+    """
+    Return `repr(value)`, or a placeholder if the value can't be represented
+    (e.g. an int that exceeds the limit for integer string conversion).
+    """
+    try:
+        return repr(value)
+    except Exception:
+        return f"<unprintable {type(value).__name__} object>"
diff --git a/d42/declaration/errors/__init__.py b/d42/declaration/errors/__init__.py
index 1dceac9..4f75af0 100644
--- a/d42/declaration/errors/__init__.py
+++ b/d42/declaration/errors/__init__.py
@@ -1,5 +1,7 @@
 from typing import TYPE_CHECKING, Any, Sized, Tuple, Type
 
+from .._safe_repr import safe_repr
+
 if TYPE_CHECKING:
     from ..types import GenericSchema
 
@@ -24,53 +26,57 @@ def make_invalid_type_error(schema: "GenericSchema", value: Any,
 
     types_ = tuple(map(_get_type_name, types))
     if len(types) == 1:
-        message = (f"`{schema!r}` value must be an instance of '{_get_type_name(types[0])}', "
-                   f"instance of {value_type_name!r} {value!r} given")
+        message = (f"`{safe_repr(schema)}` value must be "
+                   f"an instance of '{_get_type_name(types[0])}', "
+                   f"instance of {value_type_name!r} {safe_repr(value)} given")
     else:
-        message = (f"`{schema!r}` value must be an instance of {types_!r}, "
+        message = (f"`{safe_repr(schema)}` value must be an instance of {types_!r}, "
                    f"instance of {value_type_name!r} given")
     return DeclarationError(message)
 
 
 def make_already_declared_error(schema: "GenericSchema") -> DeclarationError:
-    message = f"`{schema!r}` is already declared"
+    message = f"`{safe_repr(schema)}` is already declared"
     return DeclarationError(message)
 
 
 def make_incorrect_min_error(schema: "GenericSchema",
                              value: Any, min_value: Any) -> DeclarationError:
-    message = f"`{schema!r}` min value must be less than or equal to {value}, {min_value} given"
+    message = (f"`{safe_repr(schema)}` min value must be less than or equal to "
+               f"{safe_repr(value)}, {safe_repr(min_value)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_max_error(schema: "GenericSchema",
                              value: Any, max_value: Any) -> DeclarationError:
-    message = f"`{schema!r}` max value must be greater than or equal to {value}, {max_value} given"
+    message = (f"`{safe_repr(schema)}` max value must be greater than or equal to "
+               f"{safe_repr(value)}, {safe_repr(max_value)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_len_error(schema: "GenericSchema",
                              value: Sized, length: int) -> DeclarationError:
-    message = f"`{schema!r}` len must be equal to {len(value)}, {length} given"
+    message = f"`{safe_repr(schema)}` len must be equal to {len(value)}, {safe_repr(length)} given"
     return DeclarationError(message)
 
 
 def make_incorrect_min_len_error(schema: "GenericSchema",
                                  value: Sized, min_length: int) -> DeclarationError:
-    message = (f"`{schema!r}` min len must be less than or equal to {len(value)}, "
-               f"{min_length} given")
+    message = (f"`{safe_repr(schema)}` min len must be less than or equal to {len(value)}, "
+               f"{safe_repr(min_length)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_max_len_error(schema: "GenericSchema",
                                  value: Sized, max_length: int) -> DeclarationError:
-    message = (f"`{schema!r}` max len must be greater than or equal to {len(value)}, "
-               f"{max_length} given")
+    message = (f"`{safe_repr(schema)}` max len must be greater than or equal to {len(value)}, "
+               f"{safe_repr(max_length)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_precision_error(schema: "GenericSchema",
                                    precision: int, max_precision: int) -> DeclarationError:
-    message = (f"`{schema!r}` precision must be greater than 0 or less than {max_precision}, "
-               f"{precision} given")
+    message = (f"`{safe_repr(schema)}` precision must be "
+               f"greater than 0 or less than {max_precision}, "
+               f"{safe_repr(precision)} given")
     return DeclarationError(message)
diff --git a/d42/declaration/types/_dict_schema.py b/d42/declaration/types/_dict_schema.py
index e3e458c..2f28379 100644
--- a/d42/declaration/types/_dict_schema.py
+++ b/d42/declaration/types/_dict_schema.py
@@ -5,6 +5,7 @@ from niltype import Nil, Nilable
 
 from .._is_ellipsis import TypeOrEllipsis, is_ellipsis
 from .._props import Props
+from .._safe_repr import safe_repr
 from .._schema_visitor import SchemaVisitor
 from .._schema_visitor import SchemaVisitorReturnType as ReturnType
 from ..errors import DeclarationError, make_already_declared_error, make_invalid_type_error
@@ -43,10 +44,10 @@ class DictSchema(Schema[DictProps]):
         for key, val in keys.items():
             if is_ellipsis(key) or is_ellipsis(val):
                 if not is_ellipsis(key):
-                    message = f"Inappropriate type of key {key!r} ({type(key)!r})"
+                    message = f"Inappropriate type of key {safe_repr(key)} ({type(key)!r})"
                     raise DeclarationError(message)
                 if not is_ellipsis(val):
-                    message = f"Inappropriate type of value {val!r} ({type(val)!r})"
+                    message = f"Inappropriate type of value {safe_repr(val)} ({type(val)!r})"
                     raise DeclarationError(message)
             else:
                 if not isinstance(val, Schema):
diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 85f7713..bd35abc 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -3,6 +3,7 @@ from typing import Any, Dict, List, Optional, cast
 from niltype import Nil
 
 from d42.declaration import SchemaVisitor
+from d42.declaration._safe_repr import safe_repr
 from d42.declaration.types import (
     AnySchema,
     BoolSchema,
@@ -47,7 +48,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         try:
             return from_native(value)
         except ValueError:
-            raise SubstitutionError(f"Can't convert {value!r} to schema")
+            raise SubstitutionError(f"Can't convert {safe_repr(value)} to schema")
 
     def visit(self, schema: GenericSchema, *, value: Any = Nil, **kwargs: Any) -> GenericSchema:
         if substitute_method := getattr(schema, "__d42_substitute__", None):
@@ -149,7 +150,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     pass
                 else:
                     return schema.__class__(schema.props.update(elements=substituted))
-            raise SubstitutionError(f"Can't substitute {value!r}")
+            raise SubstitutionError(f"Can't substitute {safe_repr(value)}")
 
         # head
         if (len(elements) >= 2) and is_ellipsis(elements[-1]):
@@ -196,7 +197,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     keys[key] = (val, is_optional)
             for key, val in value.items():
                 if key not in schema.props.keys:
-                    raise SubstitutionError(f"Unknown key {key!r}")
+                    raise SubstitutionError(f"Unknown key {safe_repr(key)}")
 
         return schema.__class__(schema.props.update(keys=keys))
 
@@ -217,7 +218,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                 else:
                     types.append(substituted)
             if len(types) == 0:
-                raise SubstitutionError(f"Can't substitute {value!r}")
+                raise SubstitutionError(f"Can't substitute {safe_repr(value)}")
         return schema.__class__(schema.props.update(types=tuple(types)))
 
     def visit_bytes(self, schema: BytesSchema, *, value: Any = Nil, **kwargs: Any) -> BytesSchema:
diff --git a/d42/utils/_make_required.py b/d42/utils/_make_required.py
index 32b4191..0df4824 100644
--- a/d42/utils/_make_required.py
+++ b/d42/utils/_make_required.py
@@ -2,6 +2,7 @@ from typing import Any, List, Optional, Set, Tuple, Union
 
 from niltype import Nil
 
+from d42.declaration._safe_repr import safe_repr
 from d42.declaration.errors import DeclarationError
 from d42.declaration.types import DictSchema
 
@@ -14,11 +15,11 @@ RequiredKeysType = Union[Set[str], List[str], Tuple[str, ...]]
 def make_required(schema: Union[DictSchema, Any],
                   keys: Optional[RequiredKeysType] = None) -> DictSchema:
     if not isinstance(schema, DictSchema):
-        message = f"Inappropriate type of schema {schema!r} ({type(schema)!r})"
+        message = f"Inappropriate type of schema {safe_repr(schema)} ({type(schema)!r})"
         raise DeclarationError(message)
 
     if not isinstance(keys, (set, list, tuple, type(None))):
-        message = f"Inappropriate type of keys {keys!r} ({type(keys)!r})"
+        message = f"Inappropriate type of keys {safe_repr(keys)} ({type(keys)!r})"
         raise DeclarationError(message)
 
     if keys is None:
@@ -27,7 +28,7 @@ def make_required(schema: Union[DictSchema, Any],
     props_keys = schema.props.keys if (schema.props.keys is not Nil) else {}
     for key in keys:
         if key not in props_keys:
-            message = f"Nonexisting key {key!r}"
+            message = f"Nonexisting key {safe_repr(key)}"
             raise DeclarationError(message)
 
     if schema.props.keys is Nil:
diff --git a/d42/validation/_formatter.py b/d42/validation/_formatter.py
index 0bc326e..7d57963 100644
--- a/d42/validation/_formatter.py
+++ b/d42/validation/_formatter.py
@@ -3,6 +3,8 @@ from typing import Any, Sequence
 
 from th import PathHolder
 
+from d42.declaration._safe_repr import safe_repr
+
 from ._abstract_formatter import AbstractFormatter
 from .errors import (
     AlphabetValidationError,
@@ -35,7 +37,12 @@ class Formatter(AbstractFormatter):
         return self._root
 
     def _format_path(self, path: PathHolder) -> str:
-        return str(path.__class__(self._root, [x for x in path]))
+        path = path.__class__(self._root, [x for x in path])
+        try:
+            return str(path)
+        except Exception:
+            # a key of the path can't be represented
+            return self._root + "".join(f"[{safe_repr(x.operand)}]" for x in path)
 
     def _at_path(self, path: PathHolder) -> str:
         return " at " + self._format_path(path) if len(path) > 0 else ""
@@ -49,28 +56,29 @@ class Formatter(AbstractFormatter):
     def format_type_error(self, error: TypeValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
-        return (f"Value {error.actual_value!r}{formatted_path} "
+        return (f"Value {safe_repr(error.actual_value)}{formatted_path} "
                 f"must be {error.expected_type}, but {actual_type} given")
 
     def format_value_error(self, error: ValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be equal to {error.expected_value!r}, but {error.actual_value!r} given")
+                f"must be equal to {safe_repr(error.expected_value)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_min_value_error(self, error: MinValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be greater than or equal to {error.min_value!r}, "
-                f"but {error.actual_value!r} given")
+                f"must be greater than or equal to {safe_repr(error.min_value)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_max_value_error(self, error: MaxValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be less than or equal to {error.max_value!r}, "
-                f"but {error.actual_value!r} given")
+                f"must be less than or equal to {safe_repr(error.max_value)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def _format_length_error(self, path: PathHolder, actual_value: Any,
                              length: int, accuracy: str) -> str:
@@ -80,7 +88,7 @@ class Formatter(AbstractFormatter):
         options = ("element", "elements")
         return (
             f"Value {actual_type}{formatted_path} "
-            f"must have {accuracy} {length} {self._pluralize(length, options)}, "
+            f"must have {accuracy} {safe_repr(length)} {self._pluralize(length, options)}, "
             f"but it has {actual_len} {self._pluralize(actual_len, options)}"
         )
 
@@ -100,19 +108,22 @@ class Formatter(AbstractFormatter):
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must contain only {error.alphabet!r}, but {error.actual_value!r} given")
+                f"must contain only {safe_repr(error.alphabet)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_substr_error(self, error: SubstrValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must contain {error.substr!r}, but {error.actual_value!r} given")
+                f"must contain {safe_repr(error.substr)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_regex_error(self, error: RegexValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must match pattern {error.pattern!r}, but {error.actual_value!r} given")
+                f"must match pattern {safe_repr(error.pattern)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_missing_element_error(self, error: MissingElementValidationError) -> str:
         path = deepcopy(error.path, {id(x): x for x in error.path})
@@ -121,7 +132,7 @@ class Formatter(AbstractFormatter):
 
     def format_extra_element_error(self, error: ExtraElementValidationError) -> str:
         formatted_path = self._at_path(error.path)
-        return f"Value{formatted_path} contains extra element at index {error.index!r}"
+        return f"Value{formatted_path} contains extra element at index {safe_repr(error.index)}"
 
     def format_missing_key_error(self, error: MissingKeyValidationError) -> str:
         path = deepcopy(error.path, {id(x): x for x in error.path})
@@ -130,17 +141,19 @@ class Formatter(AbstractFormatter):
 
     def format_extra_key_error(self, error: ExtraKeyValidationError) -> str:
         formatted_path = self._at_path(error.path)
-        return f"Value{formatted_path} contains extra key {error.extra_key!r}"
+        return f"Value{formatted_path} contains extra key {safe_repr(error.extra_key)}"
 
     def format_schema_missmatch_error(self, error: SchemaMismatchValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must match any of {error.expected_schemas!r}, but {error.actual_value!r} given")
+                f"must match any of {safe_repr(error.expected_schemas)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_invalid_uuid_version_error(self, error: InvalidUUIDVersionValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be a UUID version {error.expected_version!r}, "
-                f"but {error.actual_value!r} version {error.actual_version!r} given")
+                f"must be a UUID version {safe_repr(error.expected_version)}, "
+                f"but {safe_repr(error.actual_value)} "
+                f"version {safe_repr(error.actual_version)} given")
-- 
2.43.0


From 9df8005e74d7e569a5fcc7fcb110bd05094a777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 13/26] fix: repr of schemas is evaluable source for every
 value and keeps all constraints

The length of an empty list was dropped, non-finite floats and members of
subclasses (e.g. IntEnum) were not Python expressions, and ints beyond the limit for
string conversion could not be represented at all.
---
 d42/representation/_represent_value.py | 35 ++++++++++++++
 d42/representation/_representor.py     | 67 ++++++++++++++------------
 2 files changed, 72 insertions(+), 30 deletions(-)
 create mode 100644 d42/representation/_represent_value.py

diff --git a/d42/representation/_represent_value.py b/d42/representation/_represent_value.py
new file mode 100644
index 0000000..6644f4e
--- /dev/null
+++ b/d42/representation/_represent_value.py
@@ -0,0 +1,35 @@
+from math import isinf, isnan
+from typing import Any
+
+__all__ = ("represent_value",)
+
+
+def represent_value(value: Any) -> str:
+    """
+    Return a Python expression that evaluates to a value equal to the given one.
+    """
+    if isinstance(value, bool):
+        return repr(value)
+
+    if isinstance(value, int):
+        try:
+            return repr(value) if (type(value) is int) else int.__repr__(value)
+        except ValueError:  # exceeds the limit for integer string conversion
+            return hex(value)
+
+    if isinstance(value, float):
+        if isnan(value):
+            return "(1e999 - 1e999)"
+        if isinf(value):
+            return "1e999" if value > 0 else "-1e999"
+        return repr(value) if (type(value) is float) else float.__repr__(value)
+
+    for type_ in (str, bytes):
+        if isinstance(value, type_):
+            return repr(value) if (type(value) is type_) else type_.__repr__(value)
+
+    if type(value) is tuple:
+        items = [represent_value(x) for x in value]
+        return "({}{})".format(", ".join(items), "," if len(items) == 1 else "")
+
+    return repr(value)
diff --git a/d42/representation/_representor.py b/d42/representation/_representor.py
index f9cd100..fa01641 100644
--- a/d42/representation/_representor.py
+++ b/d42/representation/_representor.py
@@ -22,6 +22,8 @@ from d42.declaration.types import (
 )
 from d42.utils import is_ellipsis
 
+from ._represent_value import represent_value
+
 
 class Representor(SchemaVisitor[str]):
     def __init__(self, name: str = "schema", indent: int = 4) -> None:
@@ -44,20 +46,20 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.bool"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({represent_value(schema.props.value)})"
         return r
 
     def visit_int(self, schema: IntSchema, *, indent: int = 0, **kwargs: Any) -> str:
         r = f"{self._name}.int"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({represent_value(schema.props.value)})"
 
         if schema.props.min is not Nil:
-            r += f".min({schema.props.min!r})"
+            r += f".min({represent_value(schema.props.min)})"
 
         if schema.props.max is not Nil:
-            r += f".max({schema.props.max!r})"
+            r += f".max({represent_value(schema.props.max)})"
 
         return r
 
@@ -65,16 +67,16 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.float"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({represent_value(schema.props.value)})"
 
         if schema.props.min is not Nil:
-            r += f".min({schema.props.min!r})"
+            r += f".min({represent_value(schema.props.min)})"
 
         if schema.props.max is not Nil:
-            r += f".max({schema.props.max!r})"
+            r += f".max({represent_value(schema.props.max)})"
 
         if schema.props.precision is not Nil:
-            r += f".precision({schema.props.precision!r})"
+            r += f".precision({represent_value(schema.props.precision)})"
 
         return r
 
@@ -82,25 +84,26 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.str"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({represent_value(schema.props.value)})"
 
         if schema.props.alphabet is not Nil:
-            r += f".alphabet({schema.props.alphabet!r})"
+            r += f".alphabet({represent_value(schema.props.alphabet)})"
 
         if schema.props.substr is not Nil:
-            r += f".contains({schema.props.substr!r})"
+            r += f".contains({represent_value(schema.props.substr)})"
 
         if schema.props.pattern is not Nil:
-            r += f".regex({schema.props.pattern!r})"
+            r += f".regex({represent_value(schema.props.pattern)})"
 
         if schema.props.len is not Nil:
-            r += f".len({schema.props.len!r})"
+            r += f".len({represent_value(schema.props.len)})"
         elif (schema.props.min_len is not Nil) and (schema.props.max_len is not Nil):
-            r += f".len({schema.props.min_len!r}, {schema.props.max_len!r})"
+            r += ".len({}, {})".format(represent_value(schema.props.min_len),
+                                       represent_value(schema.props.max_len))
         elif schema.props.min_len is not Nil:
-            r += f".len({schema.props.min_len!r}, ...)"
+            r += f".len({represent_value(schema.props.min_len)}, ...)"
         elif schema.props.max_len is not Nil:
-            r += f".len(..., {schema.props.max_len!r})"
+            r += f".len(..., {represent_value(schema.props.max_len)})"
 
         return r
 
@@ -110,8 +113,6 @@ class Representor(SchemaVisitor[str]):
         if schema.props.type is not Nil:
             r += "({})".format(schema.props.type.__accept__(self, indent=indent, **kwargs))
         elif schema.props.elements is not Nil:
-            if len(schema.props.elements) == 0:
-                return r + "([])"
             elems = []
             for element in schema.props.elements:
                 if is_ellipsis(element):
@@ -119,18 +120,22 @@ class Representor(SchemaVisitor[str]):
                 else:
                     elem = element.__accept__(self, indent=indent + self._indent, **kwargs)
                 elems.append(" " * (indent + self._indent) + elem)
-            r += "([\n"
-            r += ",\n".join(elems)
-            r += "\n" + " " * indent + "])"
+            if len(elems) == 0:
+                r += "([])"
+            else:
+                r += "([\n"
+                r += ",\n".join(elems)
+                r += "\n" + " " * indent + "])"
 
         if schema.props.len is not Nil:
-            r += f".len({schema.props.len!r})"
+            r += f".len({represent_value(schema.props.len)})"
         elif (schema.props.min_len is not Nil) and (schema.props.max_len is not Nil):
-            r += f".len({schema.props.min_len!r}, {schema.props.max_len!r})"
+            r += ".len({}, {})".format(represent_value(schema.props.min_len),
+                                       represent_value(schema.props.max_len))
         elif schema.props.min_len is not Nil:
-            r += f".len({schema.props.min_len!r}, ...)"
+            r += f".len({represent_value(schema.props.min_len)}, ...)"
         elif schema.props.max_len is not Nil:
-            r += f".len(..., {schema.props.max_len!r})"
+            r += f".len(..., {represent_value(schema.props.max_len)})"
 
         return r
 
@@ -150,7 +155,9 @@ class Representor(SchemaVisitor[str]):
             if is_ellipsis(key):
                 key_repr = val_repr = "..."
             else:
-                key_repr = f"optional({key!r})" if is_optional else repr(key)
+                key_repr = represent_value(key)
+                if is_optional:
+                    key_repr = f"optional({key_repr})"
                 val_repr = val.__accept__(self, indent=indent + self._indent, **kwargs)
             pairs.append("{indent}{key}: {val}".format(
                 indent=" " * (indent + self._indent),
@@ -176,7 +183,7 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.bytes"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({represent_value(schema.props.value)})"
         return r
 
     def visit_type_alias(self, schema: GenericTypeAliasSchema[TypeAliasPropsType],
@@ -191,7 +198,7 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.uuid4"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({represent_value(schema.props.value)})"
 
         return r
 
@@ -199,7 +206,7 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.datetime"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({represent_value(schema.props.value)})"
 
         return r
 
@@ -207,6 +214,6 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.date"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({represent_value(schema.props.value)})"
 
         return r
-- 
2.43.0


From 7971b0ccc9bb81b354548baf046c73f7828d5f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 14/26] fix: regex after len(..., max) is rejected like in the
 opposite order

The guard compared len twice and missed max_len, so the outcome depended on the order
of the refinements and the representation could not be evaluated.
---
 d42/declaration/types/_str_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index 637cb17..2cf70f6 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -179,7 +179,7 @@ class StrSchema(Schema[StrProps]):
 
         if (self.props.pattern is not Nil) or (self.props.alphabet is not Nil) or \
            (self.props.len is not Nil) or (self.props.min_len is not Nil) or \
-           (self.props.len is not Nil) or (self.props.substr is not Nil):
+           (self.props.max_len is not Nil) or (self.props.substr is not Nil):
             raise make_already_declared_error(self)
 
         try:
-- 
2.43.0


From c4e30bcb5cf19c8a4f1dc67f564ba83b7126ae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:19 +0000
Subject: [PATCH 15/26] fix: every pattern re cannot compile is rejected with
 DeclarationError

---
 d42/declaration/types/_str_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index 2cf70f6..6b92dbc 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -184,7 +184,7 @@ class StrSchema(Schema[StrProps]):
 
         try:
             re.compile(pattern)
-        except re.error as e:
+        except (re.error, ValueError, OverflowError, RecursionError) as e:
             message = f"Invalid pattern ({e})"
             raise DeclarationError(message) from None
 
-- 
2.43.0


From 0b7d1d3c9d0bf9d96a7b21c4105026e99f46f598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:19 +0000
Subject: [PATCH 16/26] fix: uuid4 rejects a fixed value that is not a version
 4 UUID

---
 d42/declaration/types/_uuid4_schema.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/d42/declaration/types/_uuid4_schema.py b/d42/declaration/types/_uuid4_schema.py
index c0a30a0..cb458cc 100644
--- a/d42/declaration/types/_uuid4_schema.py
+++ b/d42/declaration/types/_uuid4_schema.py
@@ -6,7 +6,7 @@ from niltype import Nil, Nilable
 from .._props import Props
 from .._schema_visitor import SchemaVisitor
 from .._schema_visitor import SchemaVisitorReturnType as ReturnType
-from ..errors import make_already_declared_error, make_invalid_type_error
+from ..errors import DeclarationError, make_already_declared_error, make_invalid_type_error
 from ._schema import Schema
 
 __all__ = ("UUID4Schema", "UUID4Props",)
@@ -29,4 +29,8 @@ class UUID4Schema(Schema[UUID4Props]):
         if self.props.value is not Nil:
             raise make_already_declared_error(self)
 
+        if value.version != 4:
+            message = f"`{self!r}` value must be a UUID version 4, {value!r} given"
+            raise DeclarationError(message)
+
         return self.__class__(self.props.update(value=value))
-- 
2.43.0


From 2a7753ce4a5534b57bf6c69e055874f410b9b702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:19 +0000
Subject: [PATCH 17/26] fix: alias rejects a name or type of the wrong kind
 with DeclarationError

---
 d42/declaration/_schema_facade.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/d42/declaration/_schema_facade.py b/d42/declaration/_schema_facade.py
index dc15130..727c322 100644
--- a/d42/declaration/_schema_facade.py
+++ b/d42/declaration/_schema_facade.py
@@ -1,5 +1,6 @@
 from typing import Any
 
+from .errors import make_invalid_type_error
 from .types import (
     AnySchema,
     BoolSchema,
@@ -12,6 +13,7 @@ from .types import (
     IntSchema,
     ListSchema,
     NoneSchema,
+    Schema,
     StrSchema,
     TypeAliasProps,
     TypeAliasSchema,
@@ -23,6 +25,10 @@ __all__ = ("SchemaFacade",)
 
 class SchemaFacade:
     def alias(self, /, name: str, type_: GenericSchema) -> TypeAliasSchema:
+        if not isinstance(name, str):
+            raise make_invalid_type_error(TypeAliasSchema(), name, (str,))
+        if not isinstance(type_, Schema):
+            raise make_invalid_type_error(TypeAliasSchema(), type_, (Schema,))
         props = TypeAliasProps()
         return TypeAliasSchema(props.update(name=name, type=type_))
 
-- 
2.43.0


From b7fe0176af45f29708aa4b975f63c5e009f9b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 18/26] fix: a repetition with an upper bound of 44 is not
 open-ended

The bound was also compared with the MAX_REPEAT opcode, which equals 44, so patterns
like a{40,44} or a{0,44} were generated with other bounds.
---
 d42/generation/_regex_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index 428c229..cec2b25 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -111,7 +111,7 @@ class RegexGenerator:
 
     def _generate_max_repeat(self, value: Tuple[int, int, List[Any]]) -> str:
         min_count, max_count, val = value
-        if max_count in (MAX_REPEAT, MAXREPEAT):
+        if max_count == MAXREPEAT:
             max_count = max(self._max_repeat, min_count)
         count = self._random.random_int(min_count, max_count)
         return "".join(self._generate_pattern(val) for _ in range(count))
-- 
2.43.0


From 534f8bde1a23e3cdd757a5c6afa7c3049bfdcb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 19/26] fix: seeded generation of negated classes does not
 depend on the order of a set

The candidates were joined in the iteration order of a set of strings, which differs
between processes (PYTHONHASHSEED), so the same seed gave different strings.
---
 d42/generation/_regex_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index cec2b25..60260d5 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -104,7 +104,9 @@ class RegexGenerator:
                 exclude_letters += self._generate(opcode, val)
 
         letters = "".join(set(self._alphabet["letters"]) - set(exclude_letters))
-        return self._random.random_choice(letters)
+        chosen = self._random.random_choice(letters)
+        # the order of a set is not the same in every process
+        return "".join(sorted(letters))[letters.index(chosen)]
 
     def _generate_not_literal(self, value: int) -> str:
         return self._generate_not_in([(LITERAL, value)])
-- 
2.43.0


From bc350e0ebdfd124a9223ec8e7e7f65fa2422e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:35 +0000
Subject: [PATCH 20/26] fix: negated classes that exclude the whole default
 alphabet can be generated

A pattern like [^ -~] has matches, but choosing from the empty set of remaining
letters raised IndexError.
---
 d42/generation/_regex_generator.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index 60260d5..0fb92c2 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -1,3 +1,4 @@
+import re
 import string
 import sys
 
@@ -104,10 +105,35 @@ class RegexGenerator:
                 exclude_letters += self._generate(opcode, val)
 
         letters = "".join(set(self._alphabet["letters"]) - set(exclude_letters))
+        if len(letters) == 0:
+            letters = self._get_other_letters(value)
         chosen = self._random.random_choice(letters)
         # the order of a set is not the same in every process
         return "".join(sorted(letters))[letters.index(chosen)]
 
+    def _get_other_letters(self, exclude: List[Any]) -> str:
+        """
+        Return letters outside the default alphabet that are not excluded.
+        """
+        def is_excluded(letter: str) -> bool:
+            for opcode, val in exclude:
+                if opcode == RANGE:
+                    if val[0] <= ord(letter) <= val[1]:
+                        return True
+                elif opcode == CATEGORY:
+                    category = r"\d" if val == CATEGORY_DIGIT else r"\w"
+                    if re.match(category, letter):
+                        return True
+                elif ord(letter) == val:
+                    return True
+            return False
+
+        for start in range(0, sys.maxunicode + 1, 256):
+            letters = [chr(x) for x in range(start, start + 256)]
+            if candidates := [x for x in letters if not is_excluded(x)]:
+                return "".join(candidates)
+        raise ValueError("There are no letters to choose from")
+
     def _generate_not_literal(self, value: int) -> str:
         return self._generate_not_in([(LITERAL, value)])
 
-- 
2.43.0


From 1fa2212dca888f8354518677990216d6e1e64f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:10 +0000
Subject: [PATCH 21/26] fix: regex generation refuses to return a string that
 does not match

Anchors and word boundaries inside a pattern generate nothing, so a string that does not
match was returned for patterns like a\bb.
---
 d42/generation/_regex_generator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index 0fb92c2..7deac0f 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -185,4 +185,8 @@ class RegexGenerator:
 
     def generate(self, pattern: str) -> str:
         parsed = sre.parse(pattern)  # type: Any
-        return self._generate_pattern(parsed)
+        generated = self._generate_pattern(parsed)
+        if re.fullmatch(pattern, generated) is None:
+            # e.g. an anchor in the middle of the pattern
+            raise ValueError(f"Unable to generate a string that matches {pattern!r}")
+        return generated
-- 
2.43.0


From f55d33acb34ded2ee257cf81633a69525168d000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:14 +0000
Subject: [PATCH 22/26] fix: a list schema does not share the list of elements
 passed to it

Later mutation of that list changed the schema built from it.
---
 d42/declaration/types/_list_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_list_schema.py b/d42/declaration/types/_list_schema.py
index 0a98931..c13761b 100644
--- a/d42/declaration/types/_list_schema.py
+++ b/d42/declaration/types/_list_schema.py
@@ -84,7 +84,7 @@ class ListSchema(Schema[ListProps]):
            is_ellipsis(elements_or_type[0]) and is_ellipsis(elements_or_type[-1]):
             raise DeclarationError("`...` must be first or last element")
 
-        return self.__class__(self.props.update(elements=elements_or_type))
+        return self.__class__(self.props.update(elements=list(elements_or_type)))
 
     def __declare_len(self, props: ListProps, length: Any) -> ListProps:
         if not isinstance(length, int):
-- 
2.43.0


From 96c6d144bb12a92fec2d9a63ce4a56cb9a9043e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:57 +0000
Subject: [PATCH 23/26] fix: schemas nested in schema properties are compared
 structurally

A schema compares equal to every value it accepts, so e.g. schema.any was equal to a
...-marker or to an absent property next to it; a schema with a NaN value was not equal to
an independent build of itself.
---
 d42/declaration/_props.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/d42/declaration/_props.py b/d42/declaration/_props.py
index 8a3261a..127390f 100644
--- a/d42/declaration/_props.py
+++ b/d42/declaration/_props.py
@@ -7,6 +7,32 @@ __all__ = ("Props", "PropsType",)
 PropsType = TypeVar("PropsType", bound="Props")
 
 
+def _is_schema(value: Any) -> bool:
+    return hasattr(value, "__accept__") and hasattr(value, "props")
+
+
+def _is_equal(left: Any, right: Any) -> bool:
+    """
+    Compare two property values structurally.
+
+    A schema compares equal to every value it accepts, so schemas are only compared
+    with schemas here. NaN is equal to NaN, as it denotes the same declaration.
+    """
+    if left is right:
+        return True
+    if _is_schema(left) or _is_schema(right):
+        return _is_schema(left) and _is_schema(right) and bool(left == right)
+    if isinstance(left, (list, tuple)) and isinstance(right, (list, tuple)):
+        return (isinstance(left, list) == isinstance(right, list)) and \
+            (len(left) == len(right)) and all(_is_equal(x, y) for x, y in zip(left, right))
+    if isinstance(left, dict) and isinstance(right, dict):
+        return (len(left) == len(right)) and \
+            all((key in right) and _is_equal(left[key], right[key]) for key in left)
+    if isinstance(left, float) and isinstance(right, float) and (left != left):
+        return right != right
+    return bool(left == right)
+
+
 class Props:
     def __init__(self, registry: Nilable[Mapping[str, Any]] = Nil) -> None:
         self._registry = registry if (registry is not Nil) else {}
@@ -34,12 +60,12 @@ class Props:
 
         for key, val in self._registry.items():
             other_val = other.get(key)
-            if val != other_val:
+            if not _is_equal(val, other_val):
                 return False
 
         for key, other_val in other._registry.items():
             val = self.get(key)
-            if other_val != val:
+            if not _is_equal(other_val, val):
                 return False
 
         return True
-- 
2.43.0


From 1bdee571e2134fd901cf28735b85f5ff33faed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:17 +0000
Subject: [PATCH 24/26] fix: equality of schemas is symmetric when one type
 extends the other

---
 d42/validation/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/validation/__init__.py b/d42/validation/__init__.py
index ea789a1..b9c2c5f 100644
--- a/d42/validation/__init__.py
+++ b/d42/validation/__init__.py
@@ -35,7 +35,7 @@ def validate_or_fail(schema: GenericSchema, value: Any, **kwargs: Any) -> bool:
 
 def eq(schema: GenericSchema, value: Any) -> bool:
     if isinstance(value, Schema):
-        return isinstance(value, schema.__class__) and (schema.props == value.props)
+        return (type(schema) is type(value)) and (schema.props == value.props)
     return not validate(schema, value=value).has_errors()
 
 
-- 
2.43.0


From 1a1fd509cafaba8be14b328dc5cf6f1624c0f521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:51 +0000
Subject: [PATCH 25/26] fix: the import rewriter replaces exactly the imports
 of mapped names

Statements sharing a line with an import were lost, form feeds and other characters
splitlines() treats as line boundaries shifted the replaced lines, and the last of
several imports of one local name could change.
---
 d42/migration/migrate_v1_to_v2.py | 81 ++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 33 deletions(-)

diff --git a/d42/migration/migrate_v1_to_v2.py b/d42/migration/migrate_v1_to_v2.py
index 65560f5..ceb92eb 100644
--- a/d42/migration/migrate_v1_to_v2.py
+++ b/d42/migration/migrate_v1_to_v2.py
@@ -1,8 +1,8 @@
 #!/usr/bin/env python3
 import ast
 import os
-from collections import defaultdict
-from typing import Dict, Tuple, Union
+import re
+from typing import Dict, List, Tuple, Union, cast
 
 __all__ = ("migrate_v1_to_v2",)
 
@@ -135,9 +135,21 @@ mapping = {
 MappingType = Dict[str, Dict[str, Tuple[str, str]]]
 
 
+def _get_offset(line_starts: List[int], lines: List[str], lineno: int, col_offset: int) -> int:
+    # ast counts columns in utf-8 bytes
+    column = len(lines[lineno - 1].encode("utf-8")[:col_offset].decode("utf-8"))
+    return line_starts[lineno - 1] + column
+
+
 def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
-    lines = source_code.splitlines(keepends=True)
     tree = ast.parse(source_code)
+
+    # ast does not treat \f, \v, \x1c, \u2028 etc. as line boundaries (in contrast to splitlines)
+    lines = re.findall(r"[^\r\n]*(?:\r\n|\r|\n|$)", source_code)
+    line_starts = [0]
+    for line in lines:
+        line_starts.append(line_starts[-1] + len(line))
+
     replacements = []
 
     for node in tree.body:
@@ -146,42 +158,45 @@ def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
             if node.level > 0:
                 continue  # Skip relative imports like 'from .module import ...'
 
-            new_imports = defaultdict(list)
-            unmapped_names = []
-
-            for alias in node.names:
-                name = alias.name
-                asname = alias.asname
-                if module in mapping and name in mapping[module]:
-                    new_module, new_name = mapping[module][name]
-                    import_name = f"{new_name} as {asname}" if asname else new_name
-                    new_imports[new_module].append(import_name)
+            if (module not in mapping) or all(x.name not in mapping[module] for x in node.names):
+                continue  # Skip imports without v1 names
+
+            new_imports: List[Tuple[str, List[str]]] = []
+            local_names = [alias.asname or alias.name for alias in node.names]
+            has_duplicates = len(set(local_names)) != len(local_names)
+
+            for alias, local_name in zip(node.names, local_names):
+                new_module, new_name = mapping[module].get(alias.name, (module, alias.name))
+                import_name = new_name
+                if alias.asname or (local_name != new_name):
+                    import_name = f"{new_name} as {local_name}"
+                for group_module, names in new_imports:
+                    # the last import of a name wins, so the order of duplicates matters
+                    if group_module == new_module and not has_duplicates:
+                        names.append(import_name)
+                        break
                 else:
-                    import_name = f"{name} as {asname}" if asname else name
-                    unmapped_names.append(import_name)
-
-            # Build replacement lines
-            replacement_lines = []
-            for new_module, names in new_imports.items():
-                names_str = ', '.join(names)
-                replacement_lines.append(f'from {new_module} import {names_str}\n')
-            if unmapped_names:
-                names_str = ', '.join(unmapped_names)
-                replacement_lines.append(f'from {module} import {names_str}\n')
-
-            # Get line numbers
-            start_line = node.lineno - 1  # Convert to 0-based index
-            end_line = getattr(node, 'end_lineno', node.lineno) - 1
-            replacements.append((start_line, end_line, replacement_lines))
+                    new_imports.append((new_module, [import_name]))
+
+            # Unmapped names are imported after the mapped ones
+            if not has_duplicates:
+                new_imports.sort(key=lambda x: x[0] == module)
+
+            replacement = "\n".join(f"from {new_module} import {', '.join(names)}"
+                                    for new_module, names in new_imports)
+            start = _get_offset(line_starts, lines, node.lineno, node.col_offset)
+            end = _get_offset(line_starts, lines, cast(int, node.end_lineno),
+                              cast(int, node.end_col_offset))
+            replacements.append((start, end, replacement))
 
     if len(replacements) == 0:
         return None
 
-    # Apply replacements in reverse order to maintain line indices
-    for start_line, end_line, replacement_lines in reversed(replacements):
-        lines[start_line:end_line+1] = replacement_lines
+    # Apply replacements in reverse order to keep the offsets valid
+    for start, end, replacement in reversed(replacements):
+        source_code = source_code[:start] + replacement + source_code[end:]
 
-    return ''.join(lines)
+    return source_code
 
 
 def process_file(filepath: str, mapping: MappingType) -> None:
-- 
2.43.0


From 34c2cc96b32b8a41cb48f164c76940f68e24652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:38 +0000
Subject: [PATCH 26/26] fix: from_native refuses values that contain themselves
 with ValueError

---
 d42/utils/_from_native.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/d42/utils/_from_native.py b/d42/utils/_from_native.py
index c11b371..9f0cccb 100644
--- a/d42/utils/_from_native.py
+++ b/d42/utils/_from_native.py
@@ -23,6 +23,13 @@ __all__ = ("from_native",)
 
 
 def from_native(value: Any) -> GenericSchema:
+    try:
+        return _from_native(value)
+    except RecursionError:  # e.g. a list that contains itself
+        raise ValueError(value) from None
+
+
+def _from_native(value: Any) -> GenericSchema:
     if value is None:
         return NoneSchema()
     elif isinstance(value, bool):
@@ -34,11 +41,11 @@ def from_native(value: Any) -> GenericSchema:
     elif isinstance(value, str):
         return StrSchema()(value)
     elif isinstance(value, list):
-        return ListSchema()([from_native(x) for x in value])
+        return ListSchema()([_from_native(x) for x in value])
     elif isinstance(value, dict):
         if any(is_ellipsis(key) or isinstance(key, optional) for key in value):
             raise ValueError(value)
-        return DictSchema()({key: from_native(val) for key, val in value.items()})
+        return DictSchema()({key: _from_native(val) for key, val in value.items()})
     elif isinstance(value, bytes):
         return BytesSchema()(value)
     elif isinstance(value, UUID) and (value.version == 4):
-- 
2.43.0

