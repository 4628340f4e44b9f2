From d7bd8ac76b2495acda524f4e1e675b80077d8b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 01/33] fix: reject coercer results that the field's type check
 refuses with False

NoneFiller, EllipsisFiller, CallableFiller and LiteralFiller signal a failed
type check with False rather than None; a coercer returning a value of the
wrong type was accepted for such fields.
---
 records/fillers/filler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index b58e816..0219ee3 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -193,7 +193,7 @@ class AnnotatedFiller(Filler, Generic[T]):
                     try:
                         arg = coercer(arg)
                         tc = self.type_check(arg)
-                        if tc is None \
+                        if not tc \
                                 or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
                             raise TypeError(f'coercer returned value of wrong type: {type(arg)}')
                     except Exception:
-- 
2.43.0


From 7a112806156f34dbb5830d129004261a96bf92fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 02/33] fix: give every coercer the original argument

When a coercer returned a value of the wrong type, the next coercer received
that value instead of the argument the field was given.
---
 records/fillers/filler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index 0219ee3..d5172d7 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -191,15 +191,16 @@ class AnnotatedFiller(Filler, Generic[T]):
                     raise TypeError(f'failed type checking for value of type {type(arg)}')
                 for i, coercer in enumerate(self.coercers):
                     try:
-                        arg = coercer(arg)
-                        tc = self.type_check(arg)
+                        coerced = coercer(arg)
+                        tc = self.type_check(coerced)
                         if not tc \
                                 or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
-                            raise TypeError(f'coercer returned value of wrong type: {type(arg)}')
+                            raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                     except Exception:
                         if i == len(self.coercers) - 1:
                             raise
                     else:
+                        arg = coerced
                         break
                 tpk = TypePassKind.coerce
 
-- 
2.43.0


From 0fc3d7d6a04b19eb1ea65825739a666dbdb94cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 03/33] fix: compare frozen records whose field values are
 unhashable

Equality of frozen records computed their hashes first, and so raised TypeError
for any unhashable field value. Only hashes that are already known are used now.
---
 records/record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 75703a0..8146e4a 100644
--- a/records/record.py
+++ b/records/record.py
@@ -281,7 +281,8 @@ class RecordBase:
     def __eq__(self, other):
         if type(self) != type(other):
             return False
-        if type(self).is_frozen() and hash(self) != hash(other):
+        if type(self).is_frozen() and self._hash is not None and other._hash is not None \
+                and self._hash != other._hash:
             return False
         for name in self._fields:
             if getattr(self, name) != getattr(other, name):
-- 
2.43.0


From af4d51467f944050382e1bfac9bf52090a3090eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 04/33] fix: refuse deleting attributes of frozen records

Assignment was refused, but 'del record.field' removed the value.
---
 records/record.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/records/record.py b/records/record.py
index 8146e4a..8f93533 100644
--- a/records/record.py
+++ b/records/record.py
@@ -138,9 +138,11 @@ class RecordBase:
         cls._unary_parse = unary_parse
         if frozen:
             cls.__setattr__ = RecordBase.__setattr__
+            cls.__delattr__ = RecordBase.__delattr__
             cls.__hash__ = RecordBase.__hash__
         else:
             cls.__setattr__ = object.__setattr__
+            cls.__delattr__ = object.__delattr__
             cls.__hash__ = None
 
         # all validator tokens go here
@@ -426,6 +428,10 @@ class RecordBase:
             return super().__setattr__(a, value)
         raise TypeError(f'{type(self).__qualname__} is frozen')
 
+    def __delattr__(self, a):
+        # note: if the class is non-frozen, this function will be overridden
+        raise TypeError(f'{type(self).__qualname__} is frozen')
+
     def __getnewargs_ex__(self):
         return (), self.to_dict()
 
-- 
2.43.0


From 4d7567081dc3f182f05ad77950bc0e4e6c40b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 05/33] fix: use the memo of an ongoing deepcopy in
 RecordBase.__deepcopy__

An empty memo was replaced by a new one, so an object shared between a record
and what is copied after it was copied twice.
---
 records/record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 8f93533..7eb1104 100644
--- a/records/record.py
+++ b/records/record.py
@@ -654,7 +654,8 @@ class RecordBase:
         return type(self).from_instance(self)
 
     def __deepcopy__(self, memo=None):
-        memo = memo or {}
+        if memo is None:
+            memo = {}
         d = self.to_dict()
         d = deepcopy(d, memo)
         return self.from_mapping(d)
-- 
2.43.0


From a682e5d54528ec10525e079794f60dc7d7c4cfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 06/33] fix: keep values that equal the default when copying a
 record

copy and deepcopy dropped them and let the copy fall back on the default
object, so a deep copy shared a mutable default with its original, and a copy
could hold a different object than its original.
---
 records/record.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index 7eb1104..3a02aff 100644
--- a/records/record.py
+++ b/records/record.py
@@ -651,12 +651,12 @@ class RecordBase:
     def __copy__(self):
         if self.is_frozen():
             return self
-        return type(self).from_instance(self)
+        return self.from_mapping(self.to_dict(include_defaults=True))
 
     def __deepcopy__(self, memo=None):
         if memo is None:
             memo = {}
-        d = self.to_dict()
+        d = self.to_dict(include_defaults=True)
         d = deepcopy(d, memo)
         return self.from_mapping(d)
 
-- 
2.43.0


From fd28b909e4635113e469f229045a24e0e7093cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 07/33] fix: accept several mappings in from_instance

dict.update takes one mapping at most, so any second mapping raised TypeError.
---
 records/record.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 3a02aff..56e5702 100644
--- a/records/record.py
+++ b/records/record.py
@@ -480,7 +480,9 @@ class RecordBase:
             This class method is a registered parser that will be attempted when calling ``cls.parse``.
         """
         d = cls._to_dict(v, _rev_select=_select)
-        d.update(*maps, **kwargs)
+        for m in maps:
+            d.update(m)
+        d.update(kwargs)
         return d
 
     @parser
-- 
2.43.0


From e4aa939f6117222cc592fe9ab63c364ae8671972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 08/33] fix: keep the FieldDict type of _fields in record
 subclasses

Classes with inherited fields got a plain dict, without filter_by_tag.
---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 56e5702..05ab440 100644
--- a/records/record.py
+++ b/records/record.py
@@ -122,7 +122,7 @@ class RecordBase:
                     raise ValueError(f'cannot override inherited field {k}')
                 parent_fields[k] = field
         if parent_fields:
-            cls._fields = {**parent_fields, **cls._fields}
+            cls._fields = FieldDict({**parent_fields, **cls._fields})
 
         if any(b for b in cls.__bases__ if b.__init__ not in (RecordBase.__init__, object.__init__)):
             warn(f'class {cls} has parents that implement __init__, the initializer will not be called!')
-- 
2.43.0


From 7dd09368ec71b188530da806bc2e53d23952bb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 09/33] fix: leave the cached hash out of pickled records

Hashes differ between processes, so an unpickled frozen record could have a
different hash than an equal one, and compare unequal to it.
---
 records/record.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/records/record.py b/records/record.py
index 05ab440..1a3c0a0 100644
--- a/records/record.py
+++ b/records/record.py
@@ -435,6 +435,10 @@ class RecordBase:
     def __getnewargs_ex__(self):
         return (), self.to_dict()
 
+    def __getstate__(self):
+        # the cached hash is only valid in this process
+        return self.__dict__.copy()
+
     @parser
     @SelectableFactory
     @classmethod
-- 
2.43.0


From a8283ea8f6343dd6e2135db910609a7a02a3ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 10/33] fix: rebuild strings and deques in parameterized
 sequence fields

A str whose characters changed while filling a Sequence[str] field became the
repr of an iterator, and a deque in a Sequence field lost its maxlen.
---
 records/fillers/builtin_fillers/typing_fillers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index a745b51..244c4d7 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -264,6 +264,10 @@ class GenericIterableFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `elements` as its elements.
         """
+        if isinstance(initial, str):
+            elements = ''.join(elements)
+        elif isinstance(initial, deque):
+            return type(initial)(elements, initial.maxlen)
         return type(initial)(elements)
 
     def bind(self, owner_cls):
-- 
2.43.0


From 9a7e8b58cf208839cec9abbd8bc33a49bbdd79ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 11/33] fix: rebuild any kind of mapping in parameterized
 mapping fields

A defaultdict or mappingproxy in a Mapping or Dict field failed to be rebuilt,
and a Counter counted its items, whenever a key or value changed while filling.
---
 records/fillers/builtin_fillers/typing_fillers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 244c4d7..5cef668 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -328,7 +328,10 @@ class GenericMappingFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `tuples` as its tuples.
         """
-        return type(initial)(tuples)
+        if isinstance(initial, defaultdict):
+            return type(initial)(initial.default_factory, tuples)
+        # as a dict, since some mappings (like Counter) treat an iterable of tuples differently
+        return type(initial)(dict(tuples))
 
     def bind(self, owner_cls):
         super().bind(owner_cls)
-- 
2.43.0


From d17b7ae087f7ea23a75d56f9654e94fa63cba17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 12/33] fix: let a Select be built from one-shot iterators

Testing the truth of such a Select consumed its first key, and applying it
consumed the rest, so that it did nothing when used again.
---
 records/select.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/records/select.py b/records/select.py
index 4b3678d..2c6edd3 100644
--- a/records/select.py
+++ b/records/select.py
@@ -44,12 +44,13 @@ class Select:
             keys_to_remove = (keys_to_remove,)
         if isinstance(keys_to_maybe_remove, str):
             keys_to_maybe_remove = (keys_to_maybe_remove,)
-        self.keys_to_add = keys_to_add
-        self.keys_to_maybe_add = keys_to_maybe_add
-        self.keys_to_remove = keys_to_remove
-        self.keys_to_maybe_remove = keys_to_maybe_remove
-        self.keys_to_rename = keys_to_rename
-        self.keys_to_maybe_rename = keys_to_maybe_rename
+        # the keys are iterated over many times, so one-shot iterators have to be stored
+        self.keys_to_add = tuple(keys_to_add)
+        self.keys_to_maybe_add = tuple(keys_to_maybe_add)
+        self.keys_to_remove = tuple(keys_to_remove)
+        self.keys_to_maybe_remove = tuple(keys_to_maybe_remove)
+        self.keys_to_rename = tuple(keys_to_rename)
+        self.keys_to_maybe_rename = tuple(keys_to_maybe_rename)
 
         # the Select's truthiness is cached
         self._bool = None
-- 
2.43.0


From e304a3cc538e8b945043e501a9bbce6a304a895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 13/33] fix: keep Cyclic below its exclusive maximum

A float just below the minimum was rounded to the maximum itself, for example
-1e-20 in [0.0, 360.0) became 360.0.
---
 records/fillers/builtin_validators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_validators.py b/records/fillers/builtin_validators.py
index d3652ca..97b1e38 100644
--- a/records/fillers/builtin_validators.py
+++ b/records/fillers/builtin_validators.py
@@ -88,7 +88,9 @@ class Cyclic(GlobalValidationToken):
             return v
         d = v - self.minimum
         d %= (self.maximum - self.minimum)
-        return self.minimum + d
+        ret = self.minimum + d
+        # floats slightly below the minimum may be rounded up to the (exclusive) maximum
+        return self.minimum if ret >= self.maximum else ret
 
     def __call__(self, *_):
         return self.inner
-- 
2.43.0


From 190220fb7bf6042ecd3093a6276d76272f619a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 14/33] fix: round in Whole instead of truncating

Floats within rounding distance below an integer are accepted as that integer,
but were truncated to the one before it: 2.9999999999 became 2.
---
 records/fillers/builtin_fillers/std_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/std_fillers.py b/records/fillers/builtin_fillers/std_fillers.py
index c90ce6a..ad6eb65 100644
--- a/records/fillers/builtin_fillers/std_fillers.py
+++ b/records/fillers/builtin_fillers/std_fillers.py
@@ -265,7 +265,7 @@ class Whole(OriginDependant):
         elif isinstance(v, Real):
             mod = v % 1
             if isclose(mod, 0) or isclose(mod, 1):
-                return origin(v, *self.args, **self.kwargs)
+                return origin(round(v), *self.args, **self.kwargs)
         elif isinstance(v, Complex):
             if v.imag == 0:
                 return self.func_args(origin, v.real)
-- 
2.43.0


From 228cc77b2c9d07586d36ee7a8fab875dac70d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 15/33] fix: skip bare ClassVar annotations

Only ClassVar[...] was recognized, so 'x: ClassVar = 0' became a field.
---
 records/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/field.py b/records/field.py
index 31bd34c..0ccce64 100644
--- a/records/field.py
+++ b/records/field.py
@@ -112,7 +112,7 @@ class RecordField:
             raise TypeError('raw Final cannot be use inside records')
         origin, args = split_annotation(th)
         meta_org = get_origin(origin)
-        if meta_org == ClassVar:
+        if origin is ClassVar or meta_org is ClassVar:
             return SKIP_FIELD
         if meta_org is Final:
             if not owner.is_frozen():
-- 
2.43.0


From e290d8d4798f2277c6996b0822a323ce04e1581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 16/33] fix: apply the tokens around a Final annotation

Annotated[Final[int], check] silently dropped the check.
---
 records/field.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/records/field.py b/records/field.py
index 0ccce64..cc7a5e8 100644
--- a/records/field.py
+++ b/records/field.py
@@ -7,7 +7,7 @@ from records.fillers.filler import Filler
 from records.fillers.get_filler import get_filler
 from records.tags import Tag
 from records.utils.decorators import decorator_kw_method
-from records.utils.typing_compatible import get_args, get_origin, split_annotation
+from records.utils.typing_compatible import Annotated, get_args, get_origin, split_annotation
 
 try:
     from typing import Final
@@ -117,7 +117,10 @@ class RecordField:
         if meta_org is Final:
             if not owner.is_frozen():
                 raise TypeError('cannot declare Final field in non-frozen Record')
-            ret = cls.from_type_hint(get_args(origin)[0], owner=owner, **kwargs)
+            inner = get_args(origin)[0]
+            if args:
+                inner = Annotated[(inner, *args)]
+            ret = cls.from_type_hint(inner, owner=owner, **kwargs)
         else:
             filler = get_filler(th)
             ret = cls(filler=filler, owner=owner, **kwargs)
-- 
2.43.0


From 47787c98786407ff49e9363a393c368d8ab7ad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 17/33] fix: let from_instance.select(keys_to_maybe_add=...)
 supply missing attributes

The object was required to have the attribute even though the select provides
a value for it.
---
 records/record.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/records/record.py b/records/record.py
index 1a3c0a0..84a981a 100644
--- a/records/record.py
+++ b/records/record.py
@@ -364,6 +364,8 @@ class RecordBase:
                 extraction_dict[old] = cls._MockField(name=old)
             for key, _ in _rev_select.keys_to_add:
                 extraction_dict.pop(key, _)
+            for key, _ in _rev_select.keys_to_maybe_add:
+                missing_ok.add(key)
         fields_to_extract = extraction_dict.values()
 
         def tuples():
-- 
2.43.0


From 4ef88444cb00aaa1e71e0dffa307df0cb512e236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 18/33] fix: do not mistake falsy records for missing ones in
 the constructor

A falsy replacement returned by post_new was ignored, and a falsy parsing
result was not returned when post_new failed.
---
 records/record.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index 84a981a..19872f9 100644
--- a/records/record.py
+++ b/records/record.py
@@ -239,12 +239,14 @@ class RecordBase:
             self._hash = None
 
         try:
-            self = self.post_new() or self
+            replacement = self.post_new()
         except Exception:
             # post_new may perform validations and if it fails, we want to return the parsing
-            if parsing:
+            if parsing is not None:
                 return parsing
             raise
+        if replacement is not None:
+            self = replacement
 
         # if we have successfully create an instance with positional argument, but still managed parsing, the we fail
         # we keep this check till last but
-- 
2.43.0


From fb43ab29144dcc23b044dc434b3dff6df89b3baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 19/33] fix: return the result of a successful parser even if
 it is None

The constructor took a parsing result of None for a failure to parse.
---
 records/record.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/records/record.py b/records/record.py
index 19872f9..e1a6500 100644
--- a/records/record.py
+++ b/records/record.py
@@ -183,7 +183,7 @@ class RecordBase:
             raised.
         """
         # parsing stores the parsing result, if any
-        parsing = None
+        parsing = NO_ARG
         if arg is not NO_ARG:
             # handle the positional
             if not kwargs and cls._unary_parse:
@@ -196,7 +196,7 @@ class RecordBase:
 
             if len(cls._required_keys) != 1:
                 # no trivial field
-                if parsing is not None:
+                if parsing is not NO_ARG:
                     return parsing
                 raise TypeError(f'class {cls.__qualname__} accepts no positional arguments')
 
@@ -216,7 +216,7 @@ class RecordBase:
                 values[k] = cls._fields[k].filler(v)
             except Exception as e:
                 # if filling failed, check if we have a parsing standing by
-                if parsing is not None:
+                if parsing is not NO_ARG:
                     return parsing
                 msg = f'error filling filling {k}'
                 # try to create a parent error of the same type as the original error
@@ -242,7 +242,7 @@ class RecordBase:
             replacement = self.post_new()
         except Exception:
             # post_new may perform validations and if it fails, we want to return the parsing
-            if parsing is not None:
+            if parsing is not NO_ARG:
                 return parsing
             raise
         if replacement is not None:
@@ -250,7 +250,7 @@ class RecordBase:
 
         # if we have successfully create an instance with positional argument, but still managed parsing, the we fail
         # we keep this check till last but
-        if parsing is not None:
+        if parsing is not NO_ARG:
             raise TypeError(f'positional argument of type {type(arg)} can be interpreted both as trivial argument '
                             'and as unary argument')
         return self
-- 
2.43.0


From ac40bc2ec27f76a96b2bbd2449679fa6824459f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 20/33] fix: allow a field named arg

A keyword argument for it was taken for the positional argument of the
constructor, and parsed instead of filling the field.
---
 records/record.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/records/record.py b/records/record.py
index e1a6500..369b6ad 100644
--- a/records/record.py
+++ b/records/record.py
@@ -167,21 +167,25 @@ class RecordBase:
         """
         pass
 
-    def __new__(cls, arg=NO_ARG, **kwargs):
+    def __new__(cls, *args, **kwargs):
         """
         Create an instance of the class.
 
-        :param arg:
-            If there is exactly one required field in the class (called the trivial field), the single
-            positional argument can be used to fill it. Alternatively, if ``unary_parse`` has been enabled, ``arg`` can
-            be used (without keyword arguments) to parse the argument.
+        :param args:
+            At most one positional argument. If there is exactly one required field in the class (called the trivial
+            field), it can be used to fill it. Alternatively, if ``unary_parse`` has been enabled, it can be used
+            (without keyword arguments) to parse the argument.
 
         :param kwargs: The mapping is used to fill the values of all fields in the record instance.
 
         .. note::
-            If ``arg`` can be interpreted as both a parsing argument and as the trivial field. A ``TypeError`` is
+            If the argument can be interpreted as both a parsing argument and as the trivial field. A ``TypeError`` is
             raised.
         """
+        # the positional argument has no name, so that fields can have any
+        if len(args) > 1:
+            raise TypeError(f'class {cls.__qualname__} accepts at most one positional argument')
+        arg = args[0] if args else NO_ARG
         # parsing stores the parsing result, if any
         parsing = NO_ARG
         if arg is not NO_ARG:
@@ -266,7 +270,7 @@ class RecordBase:
         """
         pass
 
-    def __init__(self, arg=NO_ARG, **kwargs):
+    def __init__(self, *args, **kwargs):
         # this init method ensures no other init methods run
         pass
 
-- 
2.43.0


From e2f27b2e915a046814cdb0174c3700e87de3dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:06 +0000
Subject: [PATCH 21/33] fix: ignore decorated functions among the metadata of
 an annotation

Anything with a __wrapped__ attribute was called to obtain a token, foreign
metadata included; only wrappers of token classes are meant.
---
 records/fillers/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/util.py b/records/fillers/util.py
index edf8f1a..6863d3d 100644
--- a/records/fillers/util.py
+++ b/records/fillers/util.py
@@ -15,6 +15,6 @@ def _as_instance(obj, cls: Type[T]) -> Optional[T]:
     elif isinstance(obj, type) and issubclass(obj, cls):
         return obj()
     wrapped = getattr(obj, '__wrapped__', None)
-    if wrapped is not None:
+    if isinstance(wrapped, type) and issubclass(wrapped, cls):
         return obj()
     return None
-- 
2.43.0


From c5ac5051af5072fd8ce84601831202e0e562be5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 22/33] fix: run validators of hollow union members and element
 types

---
 .../fillers/builtin_fillers/typing_fillers.py  | 18 ++++++++++++------
 records/fillers/filler.py                      |  9 +++++++++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 5cef668..e9361c9 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -47,7 +47,7 @@ class UnionFiller(Filler):
         * Then, all the successful sub-fillers are put through validation.
         * Validation succeeds only if exactly one sub-filler succeeded.
         """
-        if self.is_hollow():
+        if self.is_trivial():
             return FillingSuccess(arg, TypePassKind.hollow)
         best_results = []
         best_key = float('inf')
@@ -80,6 +80,9 @@ class UnionFiller(Filler):
     def is_hollow(self) -> bool:
         return all(sf.is_hollow() for sf in self.sub_fillers)
 
+    def is_trivial(self) -> bool:
+        return all(sf.is_trivial() for sf in self.sub_fillers)
+
     def sub_filler(self, key):
         if isinstance(key, int):
             return self.sub_fillers[key]
@@ -132,6 +135,9 @@ class WrapperFiller(Filler):
     def is_hollow(self) -> bool:
         return self.inner_filler.is_hollow()
 
+    def is_trivial(self) -> bool:
+        return self.inner_filler.is_trivial()
+
     def apply(self, token):
         self.inner_filler.apply(token)
 
@@ -175,7 +181,7 @@ class TupleFiller(WrapperFiller):
         if len(self.inner_args) == 2 and self.inner_args[-1] is ...:
             inner_filler = self.sub_fillers[0]
             inner_filler.bind(owner_cls)
-            if not inner_filler.is_hollow():
+            if not inner_filler.is_trivial():
                 if self.is_hollow():
                     raise TypeError('cannot use non-hollow inner fillers in a hollow filler')
 
@@ -204,7 +210,7 @@ class TupleFiller(WrapperFiller):
 
             for f in self.sub_fillers:
                 f.bind(owner_cls)
-            if not all(inner_filler.is_hollow() for inner_filler in self.sub_fillers):
+            if not all(inner_filler.is_trivial() for inner_filler in self.sub_fillers):
                 if self.is_hollow():
                     raise TypeError('cannot use non-hollow inner fillers in a hollow filler')
 
@@ -274,7 +280,7 @@ class GenericIterableFiller(WrapperFiller):
         super().bind(owner_cls)
 
         self.element_filler.bind(owner_cls)
-        if not self.element_filler.is_hollow():
+        if not self.element_filler.is_trivial():
             if self.is_hollow():
                 raise TypeError('cannot use non-hollow inner fillers in a hollow filler')
 
@@ -337,7 +343,7 @@ class GenericMappingFiller(WrapperFiller):
         super().bind(owner_cls)
         self.key_filler.bind(owner_cls)
         self.value_filler.bind(owner_cls)
-        if not self.key_filler.is_hollow() or not self.value_filler.is_hollow():
+        if not self.key_filler.is_trivial() or not self.value_filler.is_trivial():
             if self.is_hollow():
                 raise TypeError('cannot use non-hollow inner fillers in a hollow filler')
 
@@ -389,7 +395,7 @@ class GenericFillerN(WrapperFiller):
         fillers = [get_filler(it) for it in self.inner_types]
         for f in fillers:
             f.bind(owner_cls)
-            if not f.is_hollow():
+            if not f.is_trivial():
                 raise TypeError('A non-specialized filler cannot have non-hollow inner types')
 
 
diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index d5172d7..2ecea61 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -121,6 +121,12 @@ class Filler(Generic[T]):
         """
         pass
 
+    def is_trivial(self) -> bool:
+        """
+        :return: Whether or not the filler leaves any argument as it is. A hollow filler with validators is not trivial.
+        """
+        return self.is_hollow()
+
     @abstractmethod
     def apply(self, token):
         """
@@ -271,3 +277,6 @@ class AnnotatedFiller(Filler, Generic[T]):
 
     def is_hollow(self) -> bool:
         return self.type_checking_style == TypeCheckStyle.hollow
+
+    def is_trivial(self) -> bool:
+        return self.is_hollow() and not self.validators
-- 
2.43.0


From 081b7e72b801b634297baa6f9912f3a64cf6d341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 23/33] fix: refuse checked parameters of generics that cannot
 check them

---
 records/fillers/get_filler.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/records/fillers/get_filler.py b/records/fillers/get_filler.py
index d440fe3..f0cb356 100644
--- a/records/fillers/get_filler.py
+++ b/records/fillers/get_filler.py
@@ -1,7 +1,9 @@
+from collections.abc import Hashable
+
 from records.fillers.builtin_fillers.recurse import GetFiller
 from records.fillers.builtin_fillers.repo import builtin_filler_checkers, builtin_filler_map
 from records.fillers.filler import Filler, TypeCheckStyle, TypePassKind, FillingSuccess
-from records.utils.typing_compatible import split_annotation
+from records.utils.typing_compatible import get_args, split_annotation
 
 
 class DumbFiller(Filler):
@@ -20,6 +22,14 @@ class DumbFiller(Filler):
         super().bind(owner_cls)
         if owner_cls.default_type_check_style() is not TypeCheckStyle.hollow:
             raise TypeError(f'cannot have type checking for origin type {self.origin}')
+        # the parameters of an uninterpreted generic cannot be filled, so they must not need it
+        for parameter in get_args(self.origin):
+            if not isinstance(parameter, Hashable):
+                continue
+            filler = get_filler(parameter)
+            filler.bind(owner_cls)
+            if not filler.is_trivial():
+                raise TypeError(f'cannot have checked parameters for origin type {self.origin}')
 
     def apply(self, token):
         raise TypeError(f'cannot have tokens for origin type {self.origin}')
-- 
2.43.0


From 7c3865ea5c6f9f7854ea41dff1a81f7e200e63ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 24/33] fix: check the length of empty tuple fields

---
 records/fillers/builtin_fillers/typing_fillers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index e9361c9..cdbbd8e 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -5,7 +5,7 @@ import contextlib
 from collections import defaultdict, deque
 from collections.abc import Callable as CallableBase
 from itertools import chain, islice
-from typing import Any, Sequence, TypeVar, Union
+from typing import Any, Sequence, Tuple, TypeVar, Union
 
 from records.fillers.builtin_fillers.recurse import GetFiller
 from records.fillers.filler import (AnnotatedFiller, Filler, TypeMatch, FillingSuccess, TypePassKind)
@@ -447,6 +447,9 @@ def _typing(stored_type):
         if has_args(stored_type):
             return TypeFiller
         return GetFiller(type)
+    if origin_cls == tuple and not get_args(stored_type) and stored_type is not Tuple:
+        # the empty tuple
+        return TupleFiller
     if origin_cls == CallableBase:
         return GetFiller(callable)
     if has_args(stored_type):
-- 
2.43.0


From 0beb296d67b47bd0d5a0813ce2254b0d75bbc2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 25/33] fix: report the field even if the error type cannot be
 built from a message

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 369b6ad..1dcbf9c 100644
--- a/records/record.py
+++ b/records/record.py
@@ -226,7 +226,7 @@ class RecordBase:
                 # try to create a parent error of the same type as the original error
                 try:
                     parent_error = type(e)(msg)
-                except TypeError:
+                except Exception:
                     parent_error = ValueError(msg)
 
                 raise parent_error from e
-- 
2.43.0


From 88d84526dddd41de4f89dbe33d282bf96164af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:57 +0000
Subject: [PATCH 26/33] fix: let from_instance remove keys whatever their
 value, also when they are added again

---
 records/record.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/records/record.py b/records/record.py
index 1dcbf9c..6bafed6 100644
--- a/records/record.py
+++ b/records/record.py
@@ -357,9 +357,9 @@ class RecordBase:
         if _rev_select:
             missing_ok = set(missing_ok)
             extraction_dict = dict(extraction_dict)
+            for key, _ in _rev_select.keys_to_add:
+                extraction_dict.pop(key, None)
             for to_remove in _rev_select.keys_to_remove:
-                if to_remove in cls._fields:
-                    continue
                 extraction_dict[to_remove] = cls._MockField(name=to_remove)
             for old, new in _rev_select.keys_to_rename:
                 missing_ok.add(new)
@@ -368,8 +368,6 @@ class RecordBase:
                 missing_ok.add(new)
                 missing_ok.add(old)
                 extraction_dict[old] = cls._MockField(name=old)
-            for key, _ in _rev_select.keys_to_add:
-                extraction_dict.pop(key, _)
             for key, _ in _rev_select.keys_to_maybe_add:
                 missing_ok.add(key)
         fields_to_extract = extraction_dict.values()
-- 
2.43.0


From d7a256a621a5046db873fa85ba2a00e208258147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:47 +0000
Subject: [PATCH 27/33] fix: unpickle frozen records from protocols 0 and 1

---
 records/record.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/records/record.py b/records/record.py
index 6bafed6..6035bf4 100644
--- a/records/record.py
+++ b/records/record.py
@@ -445,6 +445,12 @@ class RecordBase:
         # the cached hash is only valid in this process
         return self.__dict__.copy()
 
+    def __setstate__(self, state):
+        # older pickle protocols create the instance without calling __new__
+        self.__dict__.update(state)
+        if self._frozen:
+            self._hash = None
+
     @parser
     @SelectableFactory
     @classmethod
-- 
2.43.0


From a85ae1384a12185cea07db943d4bcfea43fed339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:21 +0000
Subject: [PATCH 28/33] fix: let Loose.constrain(()) refuse every argument

---
 records/fillers/builtin_fillers/std_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/std_fillers.py b/records/fillers/builtin_fillers/std_fillers.py
index ad6eb65..8cb2051 100644
--- a/records/fillers/builtin_fillers/std_fillers.py
+++ b/records/fillers/builtin_fillers/std_fillers.py
@@ -124,7 +124,7 @@ class Loose(LooseMixin):
         self._type_constraint: Union[None, type, Tuple[type, ...]] = None
 
     def func_args(self, origin, v):
-        if self._type_constraint and not isinstance(v, self._type_constraint):
+        if self._type_constraint is not None and not isinstance(v, self._type_constraint):
             raise TypeError(f'must be of type {self._type_constraint}')
         return origin(v, *self.args, **self.kwargs)
 
-- 
2.43.0


From 34ac34d0c6fc159a168b44fd1ffa2672ad669325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:21 +0000
Subject: [PATCH 29/33] fix: evaluate every expression of Eval in a namespace
 of its own

---
 records/fillers/builtin_fillers/std_fillers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/std_fillers.py b/records/fillers/builtin_fillers/std_fillers.py
index 8cb2051..8faab96 100644
--- a/records/fillers/builtin_fillers/std_fillers.py
+++ b/records/fillers/builtin_fillers/std_fillers.py
@@ -45,7 +45,8 @@ class Eval(GlobalCoercionToken):
             if not isinstance(v, str):
                 raise TypeError
             try:
-                ret = eval(v, {'__builtins__': ns})
+                # the expression may modify the namespace it is evaluated in
+                ret = eval(v, {'__builtins__': {**ns}})
             except Exception as e:
                 raise TypeError from e
 
-- 
2.43.0


From 7446eb77f9f8f1bfa0c4e892e19d6d03d5ae30be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 30/33] fix: apply the annotations of the type that a NewType
 wraps

---
 records/fillers/get_filler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/fillers/get_filler.py b/records/fillers/get_filler.py
index f0cb356..4c8365c 100644
--- a/records/fillers/get_filler.py
+++ b/records/fillers/get_filler.py
@@ -66,7 +66,9 @@ def get_annotated_filler(origin, args: tuple):
         # builtin functions to create a filler class
         ret = checker(origin)
         if isinstance(ret, GetFiller):
-            return get_annotated_filler(ret.new_origin, args)
+            # the new origin may have annotations of its own, which come first as in any nested annotation
+            new_origin, new_args = split_annotation(ret.new_origin)
+            return get_annotated_filler(new_origin, (*new_args, *args))
         elif ret:
             return ret(origin, args)
     if isinstance(origin, type):
-- 
2.43.0


From 23a6fff5df7b38f76c364c11164a9b3ca953ee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 31/33] fix: accept parameters whose annotations are not
 hashable

---
 records/fillers/get_filler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/records/fillers/get_filler.py b/records/fillers/get_filler.py
index 4c8365c..ffff590 100644
--- a/records/fillers/get_filler.py
+++ b/records/fillers/get_filler.py
@@ -58,7 +58,11 @@ def get_annotated_filler(origin, args: tuple):
         usually it's preferable to call `get_filler` with `Annotated`.
     """
     # there are 4 ways a filler is made:
-    blt = builtin_filler_map.get(origin)
+    try:
+        blt = builtin_filler_map.get(origin)
+    except TypeError:
+        # the annotations of a parameter need not be hashable
+        blt = None
     if blt:
         # a mapping of types to filler classes (for shourtcuts)
         return blt(origin, args)
-- 
2.43.0


From 79a47969e3d6b54c83f420ce93be9e1eaca4993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:03 +0000
Subject: [PATCH 32/33] fix: own fields shadowing annotations of other bases
 are not in declaration order

---
 records/record.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/records/record.py b/records/record.py
index 6035bf4..4c8bf5f 100644
--- a/records/record.py
+++ b/records/record.py
@@ -99,12 +99,11 @@ class RecordBase:
         cls._fields = FieldDict()
         # in bodyless classes, __annotations__ refers to parent
         own_annotations = cls.__dict__.get('__annotations__', {})
-        for name, type_hint in get_type_hints(cls, localns={cls.__name__: cls, cls.__qualname__: cls}).items():
-            if name not in own_annotations:
-                # type hints also give things from super classes which we don't want
-                continue
+        type_hints = get_type_hints(cls, localns={cls.__name__: cls, cls.__qualname__: cls})
+        # type hints also give things from super classes which we don't want (and whose order we don't want either)
+        for name in own_annotations:
             # initialize the field
-            field = RecordField.from_type_hint(type_hint,
+            field = RecordField.from_type_hint(type_hints[name],
                                                owner=cls, name=name,
                                                default=getattr_static(cls, name, NO_DEFAULT))
             if field is SKIP_FIELD:
-- 
2.43.0


From f9cdd077b4b9e6a1a4760099b082caa15f459858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:20 +0000
Subject: [PATCH 33/33] fix: Cyclic leaves decimals below its minimum

---
 records/fillers/builtin_validators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/records/fillers/builtin_validators.py b/records/fillers/builtin_validators.py
index 97b1e38..633afb2 100644
--- a/records/fillers/builtin_validators.py
+++ b/records/fillers/builtin_validators.py
@@ -89,6 +89,9 @@ class Cyclic(GlobalValidationToken):
         d = v - self.minimum
         d %= (self.maximum - self.minimum)
         ret = self.minimum + d
+        # the remainder of some types (like Decimal) has the sign of the dividend
+        if ret < self.minimum:
+            ret += self.maximum - self.minimum
         # floats slightly below the minimum may be rounded up to the (exclusive) maximum
         return self.minimum if ret >= self.maximum else ret
 
-- 
2.43.0

