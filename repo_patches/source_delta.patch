From 68da4b0889086745444d829a3e170b10fa13b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:53 +0000
Subject: [PATCH 01/25] fix: set the current schema while Schema.update runs

An invalid update raised LookupError instead of ValidationError (or attributed
the errors to an unrelated schema) because no schema context was set.
---
 oblate/schema.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oblate/schema.py b/oblate/schema.py
index a541326..20bb4d2 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -412,6 +412,13 @@ class Schema(metaclass=_SchemaMeta):
         if ignore_extra is MISSING:
             ignore_extra = self.__config__.ignore_extra
 
+        token = current_schema.set(self)
+        try:
+            self._update_from_data(data, ignore_extra=ignore_extra)
+        finally:
+            current_schema.reset(token)
+
+    def _update_from_data(self, data: Mapping[str, Any], *, ignore_extra: bool) -> None:
         fields = self.__load_fields__
         errors: List[FieldError] = []
         old_values = self._field_values.copy()
-- 
2.43.0


From 1b3e4eacf529456cbbeae8fa0e7105bafd7cb487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:56 +0000
Subject: [PATCH 02/25] fix: roll back Schema.update on every kind of failure

Fields already assigned were kept when a later key raised FrozenError (or any
exception other than a validation error), leaving a partially applied update.
---
 oblate/schema.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 20bb4d2..cb738a4 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -412,16 +412,20 @@ class Schema(metaclass=_SchemaMeta):
         if ignore_extra is MISSING:
             ignore_extra = self.__config__.ignore_extra
 
+        old_values = self._field_values.copy()
         token = current_schema.set(self)
         try:
             self._update_from_data(data, ignore_extra=ignore_extra)
+        except BaseException:
+            # fallback to original state in case update fails
+            self._field_values = old_values
+            raise
         finally:
             current_schema.reset(token)
 
     def _update_from_data(self, data: Mapping[str, Any], *, ignore_extra: bool) -> None:
         fields = self.__load_fields__
         errors: List[FieldError] = []
-        old_values = self._field_values.copy()
 
         for key, value in data.items():
             token = current_field_key.set(key)
@@ -438,8 +442,6 @@ class Schema(metaclass=_SchemaMeta):
                 current_field_key.reset(token)
 
         if errors:
-            # fallback to original state in case update fails
-            self._field_values = old_values
             raise config.validation_error_cls(errors)
 
     def dump(self, *, include: Sequence[str] = MISSING, exclude: Sequence[str] = MISSING) -> Dict[str, Any]:
-- 
2.43.0


From 9bc3740b1f108698d9a3516ec520bcf7146550de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:58 +0000
Subject: [PATCH 03/25] fix: restore the current schema after Schema.dump

dump() set the current schema and never restored it, so errors raised by the
enclosing operation after a nested dump were attributed to the wrong schema.
---
 oblate/schema.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index cb738a4..3da0584 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -30,6 +30,7 @@ from typing import (
     List,
     Optional,
     Sequence,
+    Set,
     Tuple,
     Type,
     TypeVar,
@@ -477,7 +478,13 @@ class Schema(metaclass=_SchemaMeta):
         if exclude is not MISSING:
             fields = fields.difference(set(exclude))
 
-        current_schema.set(self)
+        token = current_schema.set(self)
+        try:
+            return self._dump_fields(fields)
+        finally:
+            current_schema.reset(token)
+
+    def _dump_fields(self, fields: Set[str]) -> Dict[str, Any]:
         out: Dict[str, Any] = {}
         errors: List[FieldError] = []
 
-- 
2.43.0


From 7b4f5c08aef561f6133440777766c898d1ae956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:45 +0000
Subject: [PATCH 04/25] fix: always restore the current context after loading a
 value

The early return for None values (and an unexpected exception in a raw
validator) left the field's LoadContext set, so later errors (missing or unknown
fields, other schemas) carried an unrelated context.
---
 oblate/schema.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 3da0584..d74404b 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -246,12 +246,25 @@ class Schema(metaclass=_SchemaMeta):
         # using this data. This is done when validators are ran on initialization
         # of schema. (e.g. Schema._prepare_from_data does this)
 
+        context = LoadContext(field=field, value=value, schema=self)
+        token = current_context.set(context)
+        try:
+            return self._load_field_value(field, value, context, validators)
+        finally:
+            current_context.reset(token)
+
+    def _load_field_value(
+            self,
+            field: Field[Any, Any],
+            value: Any,
+            context: LoadContext,
+            validators: Optional[List[Tuple[Field[Any, Any], Any, LoadContext, bool]]],
+        ) -> List[FieldError]:
+
         name = field._name
         lazy_validation = validators is not None
         errors: List[FieldError] = []
         validator_errors: List[FieldError] = []
-        context = LoadContext(field=field, value=value, schema=self)
-        token = current_context.set(context)
 
         if field._raw_validators and lazy_validation:
             validators.append((field, value, context, True))
@@ -279,8 +292,6 @@ class Schema(metaclass=_SchemaMeta):
             if not validator_errors:
                 self._field_values[name] = final_value
             errors.extend(validator_errors)
-        finally:
-            current_context.reset(token)
 
         return errors
 
-- 
2.43.0


From e5f46033635e557bd9602a15da19b8ffdb39fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:47 +0000
Subject: [PATCH 05/25] fix: run and report raw validators on update as on
 initialization

When a field was updated, raw validators were skipped for None values and their
errors were dropped if deserialization failed too.
---
 oblate/schema.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index d74404b..d79e7b2 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -269,15 +269,17 @@ class Schema(metaclass=_SchemaMeta):
         if field._raw_validators and lazy_validation:
             validators.append((field, value, context, True))
 
+        if not lazy_validation:
+            validator_errors.extend(field._run_validators(value, context, raw=True))
+
         if value is None:
-            if field.none:
-                self._field_values[name] = None
-            else:
+            if not field.none:
                 errors.append(field._call_format_error(field.ERR_NONE_DISALLOWED, self, None))
+            elif not validator_errors:
+                self._field_values[name] = None
+            errors.extend(validator_errors)
             return errors
 
-        if not lazy_validation:
-            validator_errors.extend(field._run_validators(value, context, raw=True))
         try:
             final_value = field.value_load(value, context)
         except (ValueError, AssertionError, FieldError) as err:
@@ -291,8 +293,8 @@ class Schema(metaclass=_SchemaMeta):
                 validators.append((field, final_value, context, False))
             if not validator_errors:
                 self._field_values[name] = final_value
-            errors.extend(validator_errors)
 
+        errors.extend(validator_errors)
         return errors
 
     def _get_field(self, name: str) -> Field[Any, Any]:
-- 
2.43.0


From 2617256661157f4dbdba56a021593ce5a8923112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:03 +0000
Subject: [PATCH 06/25] fix: use the load key for errors raised on field
 assignment

Assigning an invalid value to a field with a custom load key raised an error
whose key was the attribute name, so FieldError.field was None or another field.
---
 oblate/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 6b35350..3f08b77 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -186,7 +186,7 @@ class Field(Generic[RawValueT, FinalValueT]):
             raise FrozenError(self)
 
         schema_token = current_schema.set(instance)
-        field_name = current_field_key.set(self._name)
+        field_name = current_field_key.set(self.load_key)
         try:
             errors = instance._process_field_value(self, value)
             if errors:
-- 
2.43.0


From ea3ad82ae389866201293c3c3887bffb79c7d2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:06 +0000
Subject: [PATCH 07/25] fix: dump None values of nullable Object fields

Schema.dump() raised AttributeError when an Object field held None.
---
 oblate/fields/nesting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oblate/fields/nesting.py b/oblate/fields/nesting.py
index d29bcdd..9e921a9 100644
--- a/oblate/fields/nesting.py
+++ b/oblate/fields/nesting.py
@@ -22,7 +22,7 @@
 
 from __future__ import annotations
 
-from typing import TYPE_CHECKING, Type, Mapping, TypeVar, Any, Union
+from typing import TYPE_CHECKING, Type, Mapping, TypeVar, Any, Optional, Union
 from oblate.fields.base import Field
 from oblate.schema import Schema
 from oblate.exceptions import FieldError, ValidationError
@@ -114,5 +114,7 @@ class Object(Field[Union[Mapping[str, Any], SchemaT], SchemaT]):
 
         raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)
 
-    def value_dump(self, value: SchemaT, context: DumpContext) -> Mapping[str, Any]:
+    def value_dump(self, value: Optional[SchemaT], context: DumpContext) -> Optional[Mapping[str, Any]]:
+        if value is None:
+            return None
         return value.dump()
-- 
2.43.0


From af1a27217e165bcc25da189cc4fe50806c756eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:08 +0000
Subject: [PATCH 08/25] fix: report serialization errors of nested schemas
 under their field

A nested schema failing to dump replaced the ValidationError of the schema being
dumped, losing the path to the field and every other error.
---
 oblate/fields/nesting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oblate/fields/nesting.py b/oblate/fields/nesting.py
index 9e921a9..96553fd 100644
--- a/oblate/fields/nesting.py
+++ b/oblate/fields/nesting.py
@@ -117,4 +117,7 @@ class Object(Field[Union[Mapping[str, Any], SchemaT], SchemaT]):
     def value_dump(self, value: Optional[SchemaT], context: DumpContext) -> Optional[Mapping[str, Any]]:
         if value is None:
             return None
-        return value.dump()
+        try:
+            return value.dump()
+        except ValidationError as err:
+            raise FieldError(err._raw_std(include_message=False)) from None
-- 
2.43.0


From 923f23edaa2348d2c047bb527f6254f3167aaabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:43 +0000
Subject: [PATCH 09/25] fix: drop the load key of a field overridden in a
 subclass

A subclass redefining a field under another load key still required (and
accepted) the load key of the field it replaced.
---
 oblate/schema.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index d79e7b2..c3f8663 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -142,17 +142,14 @@ class Schema(metaclass=_SchemaMeta):
             # When a schema is subclassed, the fields have to be copied so
             # the parent schema's fields are not modified
             cls.__fields__ = cls.__fields__.copy()
-            cls.__load_fields__ = cls.__load_fields__.copy()
         else:
             cls.__fields__ = {}
-            cls.__load_fields__ = {}
 
         members = vars(cls).copy()
         for name, member in members.items():
             if isinstance(member, Field):
                 member._bind(name, cls)
                 cls.__fields__[name] = member  # type: ignore
-                cls.__load_fields__[member.load_key] = member  # type: ignore
             elif callable(member) and hasattr(member, '__validator_field__'):
                 field = member.__validator_field__
                 if isinstance(field, str):
@@ -165,6 +162,10 @@ class Schema(metaclass=_SchemaMeta):
 
                 field.add_validator(member)
 
+        # Built from the final set of fields so the load key of a field that is
+        # overridden in the subclass is not retained
+        cls.__load_fields__ = {field.load_key: field for field in cls.__fields__.values()}
+
         if cls.__config__.add_repr and '__repr__' not in members:
             cls.__repr__ = _schema_repr  # type: ignore
 
-- 
2.43.0


From 24d4422d78e9397181b628cead954585a7ac48e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:46 +0000
Subject: [PATCH 10/25] fix: inherit the fields of every base schema

With multiple base schemas, only the fields of the first one were inherited.
---
 oblate/schema.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index c3f8663..d99d900 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -138,12 +138,13 @@ class Schema(metaclass=_SchemaMeta):
         # circular import
         from oblate.fields.base import Field
 
-        if hasattr(cls, '__fields__'):
-            # When a schema is subclassed, the fields have to be copied so
-            # the parent schema's fields are not modified
-            cls.__fields__ = cls.__fields__.copy()
-        else:
-            cls.__fields__ = {}
+        # When a schema is subclassed, the fields have to be copied so
+        # the parent schema's fields are not modified
+        cls.__fields__ = {}
+        for base in reversed(cls.__mro__[1:]):
+            for name, field in vars(base).get('__fields__', {}).items():
+                if name in vars(base):
+                    cls.__fields__[name] = field
 
         members = vars(cls).copy()
         for name, member in members.items():
-- 
2.43.0


From a94a930ae401ba4c82256318e70c9c1b28a462fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 11/25] fix: allow validators for inherited fields in
 subclassed schemas

The documented validate.field('name') for a field of the parent schema raised
TypeError. The field is copied so the parent schema is not affected.
---
 oblate/schema.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index d99d900..f76faab 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -156,8 +156,8 @@ class Schema(metaclass=_SchemaMeta):
                 if isinstance(field, str):
                     try:
                         field = members[field]
-                    except KeyError:  # pragma: no cover
-                        pass
+                    except KeyError:
+                        field = cls._own_inherited_field(field)
                 if not isinstance(field, Field):
                     raise TypeError(f'Validator {member.__name__} got an unknown field {field}')  # pragma: no cover
 
@@ -170,6 +170,20 @@ class Schema(metaclass=_SchemaMeta):
         if cls.__config__.add_repr and '__repr__' not in members:
             cls.__repr__ = _schema_repr  # type: ignore
 
+    @classmethod
+    def _own_inherited_field(cls, name: str) -> Any:
+        # Returns the field inherited from a parent schema as a field of this
+        # schema so it can be altered without affecting the parent schema.
+        field = cls.__fields__.get(name)
+        if field is None or field._schema is cls:
+            return field or name
+
+        field = field.copy()
+        field._bind(name, cls)
+        setattr(cls, name, field)
+        cls.__fields__[name] = field
+        return field
+
     def _prepare_from_data(self, data: Mapping[str, Any], *, ignore_extra: bool = MISSING) -> None:
         data = self.preprocess_data(data)
         if not isinstance(data, collections.abc.Mapping):
-- 
2.43.0


From 496a50800b9bf52532c207c50bf3cc72dc998d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:20 +0000
Subject: [PATCH 12/25] fix: keep a __repr__ inherited by a schema

A subclass of a schema (or mixin) implementing its own __repr__ had it replaced by
the default one.
---
 oblate/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index f76faab..b6c0d42 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -167,7 +167,7 @@ class Schema(metaclass=_SchemaMeta):
         # overridden in the subclass is not retained
         cls.__load_fields__ = {field.load_key: field for field in cls.__fields__.values()}
 
-        if cls.__config__.add_repr and '__repr__' not in members:
+        if cls.__config__.add_repr and cls.__repr__ is object.__repr__:
             cls.__repr__ = _schema_repr  # type: ignore
 
     @classmethod
-- 
2.43.0


From 77e45d569b21961ca0e2c819cebd9fc73e7449f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 13/25] fix: show the repr of field values in the schema repr

As documented, User(id=1, username='John') rather than username=John.
---
 oblate/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index b6c0d42..460a2d2 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -55,7 +55,7 @@ __all__ = (
 T = TypeVar('T')
 
 def _schema_repr(self: Schema) -> str:
-    attrs = ', '.join((f'{name}={value}' for name, value in self._field_values.items()))  # pragma: no cover
+    attrs = ', '.join((f'{name}={value!r}' for name, value in self._field_values.items()))  # pragma: no cover
     return f'{self.__class__.__name__}({attrs})'  # pragma: no cover
 
 
-- 
2.43.0


From fe292f3242ba4a23f6c007cd58eaa862ce7e0b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 14/25] fix: validate typing.Mapping type expressions

The documented Mapping support was never dispatched to, so every value passed.
---
 oblate/type_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index e1cfe3c..40d8700 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -345,6 +345,8 @@ class TypeValidator:
 
         if origin is collections.abc.Sequence:
             return cls._handle_origin_sequence(value, tp)
+        if origin is collections.abc.Mapping:
+            return cls._handle_origin_mapping(value, tp)
         if origin is dict:
             return cls._handle_origin_dict(value, tp)
         if origin is list:
@@ -367,7 +369,7 @@ class TypeValidator:
             return cls._handle_origin_required(value, tp)
         if origin is NotRequired:
             return cls._handle_origin_not_required(value, tp)
-        if origin in (list, set, dict, tuple, collections.abc.Sequence):
+        if origin in (list, set, dict, tuple, collections.abc.Sequence, collections.abc.Mapping):
             return cls._process_struct(value, tp)
         if origin is Literal:
             return cls._handle_origin_literal(value, tp)
-- 
2.43.0


From c562b9beba427df5ad2418ba46478dafb1f38ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:26 +0000
Subject: [PATCH 15/25] fix: validate every item of a tuple given for
 typing.Sequence

A tuple was checked against Tuple[T]: only its first item was validated and the
empty tuple was rejected.
---
 oblate/type_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 40d8700..9a4c616 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -335,7 +335,7 @@ class TypeValidator:
         if value_tp is set:
             return cls._handle_origin_set(value, tp)
         if value_tp is tuple:
-            return cls._handle_origin_tuple(value, tp)
+            return cls._handle_origin_tuple(value, Tuple[get_args(tp)[0], ...])
 
         return cls._handle_origin_list(value, tp)  # pragma: no cover
 
-- 
2.43.0


From 92c2fb957999849e6161287c251174121cd93e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:28 +0000
Subject: [PATCH 16/25] fix: reject tuples longer than their type expression

Tuple[int, str] accepted (1, 'a', <anything>, ...).
---
 oblate/type_validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 9a4c616..6c2797b 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -325,6 +325,10 @@ class TypeValidator:
                         validated = False
                         errors.append(f'Tuple item at index {idx}: {fail_msg[0]}')  # pragma: no cover
 
+            if len(value) > len(args):  # type: ignore
+                validated = False
+                errors.append(f'Tuple length must be {len(args)} (current length: {len(value)})')  # type: ignore
+
         return validated, errors
 
     @classmethod
-- 
2.43.0


From df98dabd935cc0e41f2a113a11ba59725a6d8ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:30 +0000
Subject: [PATCH 17/25] fix: validate values of Required and NotRequired keys

The wrapped type was not unwrapped: NotRequired[int] accepted any value and
NotRequired[Literal['a']] rejected 'a'.
---
 oblate/type_validation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 6c2797b..fb2fd11 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -203,8 +203,7 @@ class TypeValidator:
     @classmethod
     def _handle_origin_required(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:
         args = get_args(tp)
-        origin = get_origin(args[0])
-        return cls._handle_origin(value, tp, origin)
+        return cls._process_value(value, args[0])
 
     _handle_origin_not_required = _handle_origin_required
 
-- 
2.43.0


From 9ba02a8960b56725a3bb4d4d607468b24ba0d385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:32 +0000
Subject: [PATCH 18/25] fix: decide required keys of a TypedDict per key

With total=False, keys having a generic type (e.g. List[int]) were required; and
keys inherited from a TypedDict of other totality followed the subclass.
---
 oblate/type_validation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index fb2fd11..abd51ed 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -191,9 +191,9 @@ class TypeValidator:
 
         for key, value in typehints.items():
             origin = get_origin(value)
-            if (origin is None and not tp.__total__) or (origin is NotRequired):
-                # either no marker and total=False -> field is not required
-                # or NotRequired marker and total=True/False -> field is not required
+            if origin is NotRequired or (origin is not Required and key not in tp.__required_keys__):
+                # either NotRequired marker -> field is not required
+                # or no marker and defined with total=False -> field is not required
                 continue
 
             errors.append(f'Key {key!r} is required')
-- 
2.43.0


From b67b72dd091752dcf7df3f75f2073542167c12e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:55 +0000
Subject: [PATCH 19/25] fix: accept generics without type arguments in type
 expressions

typing.List, Dict, Set, Sequence and Mapping raised IndexError for every value.
---
 oblate/type_validation.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index abd51ed..803e590 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -26,6 +26,7 @@ from typing import (
     Any,
     Union,
     List,
+    Sequence,
     Set,
     Tuple,
     Literal,
@@ -144,6 +145,16 @@ class TypeValidator:
 
     _warnings_issued: Set[Any] = set()
 
+    # Generics used without type arguments accept items of any type
+    _bare_generics: Dict[Any, Any] = {
+        Sequence: Sequence[Any],
+        List: List[Any],
+        Set: Set[Any],
+        Tuple: Tuple[Any, ...],
+        Dict: Dict[Any, Any],
+        Mapping: Mapping[Any, Any],
+    }
+
     __slots__ = ('types',)
 
     def __init__(self, types: Dict[str, Any]) -> None:
@@ -394,6 +405,9 @@ class TypeValidator:
                 return cls._handle_type_typed_dict(value, tp)
             return isinstance(value, tp), [f'Must be of type {tp.__name__}']
 
+        if not get_args(tp):
+            tp = cls._bare_generics.get(tp, tp)
+
         return cls._handle_origin(value, tp, origin)
 
     def validate(self, key: str, value: Any) -> Tuple[bool, List[str]]:
-- 
2.43.0


From 6a65f3b55c7906ed79834f21a07592e0d4c7d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:56 +0000
Subject: [PATCH 20/25] fix: skip validation of unsupported types that are not
 generic

As documented, an unsupported type is not validated and a warning is issued; a
TypeVar, NewType, non-runtime protocol etc. raised TypeError instead.
---
 oblate/type_validation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 803e590..0de968a 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -403,7 +403,15 @@ class TypeValidator:
         if origin is None:
             if is_typeddict(tp):
                 return cls._handle_type_typed_dict(value, tp)
-            return isinstance(value, tp), [f'Must be of type {tp.__name__}']
+            if tp is None:
+                tp = type(None)
+            try:
+                validated = isinstance(value, tp)
+            except TypeError:
+                # not a type e.g. a type variable or NewType
+                cls._warn_unsupported(tp)
+                return True, []
+            return validated, [f'Must be of type {tp.__name__}']
 
         if not get_args(tp):
             tp = cls._bare_generics.get(tp, tp)
-- 
2.43.0


From 31d7e256c0eeb9c95a8f91dc100bc262c56cd3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:46 +0000
Subject: [PATCH 21/25] fix: honour the step of the range given to
 Range.from_standard

---
 oblate/validate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oblate/validate.py b/oblate/validate.py
index ab1a8c0..b0c55af 100644
--- a/oblate/validate.py
+++ b/oblate/validate.py
@@ -202,7 +202,9 @@ class Range(Validator[int]):
         would only include the integers accounted by the given standard :func:`range`
         (i.e upper bound not inclusive).
         """
-        return cls(obj.start, obj.stop - 1)
+        validator = cls(obj.start, obj.stop - 1)
+        validator._range = obj
+        return validator
 
 
 class Length(Validator[collections.abc.Sized]):
-- 
2.43.0


From 2bc09fd253e12a9c1d32817a0a9da8da5b90b57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:01 +0000
Subject: [PATCH 22/25] fix: pass the given value to errors of Boolean coercion

---
 oblate/fields/primitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index fd0c7e1..75de1b7 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -199,10 +199,10 @@ class Boolean(Field[bool, bool]):
         if not isinstance(value, bool):
             if self.strict:
                 raise self._call_format_error(self.ERR_INVALID_DATATYPE, ctx.schema, value)
-            value = str(value)
-            if value in self._true_values:
+            string = str(value)
+            if string in self._true_values:
                 return True
-            if value in self._false_values:
+            if string in self._false_values:
                 return False
             else:
                 raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value)
-- 
2.43.0


From c29d6959adfcfbc8aee51aad8f5e4bf1e2b35ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:03 +0000
Subject: [PATCH 23/25] fix: set FieldNotSet.name as documented

---
 oblate/exceptions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index ed89236..2d640fe 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -66,10 +66,11 @@ class FieldNotSet(AttributeError, OblateException):
         The schema that accessed the field.
     """
     def __init__(self, field: Field[Any, Any], schema: Schema, field_name: str) -> None:
+        super().__init__(f'Field {field._name!r} has no value set', field._name, schema)
+        self.name = field_name
         self.field_name = field_name
         self.field = field
         self.schema = schema
-        super().__init__(f'Field {field._name!r} has no value set', field._name, schema)
 
 
 class FrozenError(OblateException):
-- 
2.43.0


From 0e4ab31af215e7fe0ee9b3fefad4d7417a6d88d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:14 +0000
Subject: [PATCH 24/25] fix: respect the global config assigned to
 oblate.config

---
 oblate/fields/base.py     | 4 ++--
 oblate/schema.py          | 9 +++++----
 oblate/type_validation.py | 4 ++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 3f08b77..eeb62ab 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -43,9 +43,9 @@ from oblate.validate import Validator, ValidatorCallbackT, InputT
 from oblate.utils import MISSING, current_field_key, current_schema
 from oblate.exceptions import FieldError, FrozenError
 from oblate.contexts import ErrorContext
-from oblate.configs import config
 
 import copy
+import oblate
 
 if TYPE_CHECKING:
     from oblate.contexts import LoadContext, DumpContext
@@ -190,7 +190,7 @@ class Field(Generic[RawValueT, FinalValueT]):
         try:
             errors = instance._process_field_value(self, value)
             if errors:
-                raise config.validation_error_cls(errors)
+                raise oblate.config.validation_error_cls(errors)
         finally:
             current_schema.reset(schema_token)
             current_field_key.reset(field_name)
diff --git a/oblate/schema.py b/oblate/schema.py
index 460a2d2..24543f2 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -39,11 +39,12 @@ from typing_extensions import Self
 from oblate.contexts import SchemaContext, LoadContext, DumpContext
 from oblate.utils import MISSING, current_field_key, current_context, current_schema
 from oblate.exceptions import FieldError, FieldNotSet, FrozenError
-from oblate.configs import config, SchemaConfig
+from oblate.configs import SchemaConfig
 
 import collections.abc
 import inspect
 import copy
+import oblate
 
 if TYPE_CHECKING:
     from oblate.fields.base import Field
@@ -235,7 +236,7 @@ class Schema(metaclass=_SchemaMeta):
                 current_schema.reset(schema_token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise oblate.config.validation_error_cls(errors)
 
         self._context._initialized = True
         self.__schema_post_init__()
@@ -472,7 +473,7 @@ class Schema(metaclass=_SchemaMeta):
                 current_field_key.reset(token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise oblate.config.validation_error_cls(errors)
 
     def dump(self, *, include: Sequence[str] = MISSING, exclude: Sequence[str] = MISSING) -> Dict[str, Any]:
         """Serializes the schema to raw form.
@@ -543,6 +544,6 @@ class Schema(metaclass=_SchemaMeta):
                 current_context.reset(context_token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise oblate.config.validation_error_cls(errors)
 
         return out
diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 0de968a..a6331a4 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -166,9 +166,9 @@ class TypeValidator:
 
     @classmethod
     def _warn_unsupported(cls, tp: Any) -> None:
-        from oblate.configs import config  # circular import
+        import oblate  # circular import
 
-        if tp in cls._warnings_issued or not config.warn_unsupported_types:
+        if tp in cls._warnings_issued or not oblate.config.warn_unsupported_types:
             return  # pragma: no cover
 
         cls._warnings_issued.add(tp)
-- 
2.43.0


From 88a0ef515358a4606d6600be46cc1974481080fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 25/25] fix: load the value given to value_load of primitive
 fields

---
 oblate/fields/primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index 75de1b7..fd93ae1 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -77,7 +77,7 @@ class String(Field[str, str]):
         return super()._get_default_error_message(error_code, context)
 
     def value_load(self, value: str, context: LoadContext) -> str:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: str, context: DumpContext) -> str:
         return value
@@ -130,7 +130,7 @@ class Integer(Field[int, int]):
         return super()._get_default_error_message(error_code, context)
 
     def value_load(self, value: int, context: LoadContext) -> int:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: int, context: DumpContext) -> int:
         return value
@@ -218,7 +218,7 @@ class Boolean(Field[bool, bool]):
         return super()._get_default_error_message(error_code, context)  # pragma: no cover
 
     def value_load(self, value: bool, context: LoadContext) -> bool:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: bool, context: DumpContext) -> bool:
         return value
@@ -271,7 +271,7 @@ class Float(Field[float, float]):
         return super()._get_default_error_message(error_code, context)  # pragma: no cover
 
     def value_load(self, value: float, context: LoadContext) -> float:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: float, context: DumpContext) -> float:
         return value
-- 
2.43.0

