From c0f5430ca38318c9ef06619e30c35958c2c0d4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 01/50] fix: re-check coercer results for None, Ellipsis,
 callable and literal types

These fillers report a failed type check as False rather than None, so a
coercer result of the wrong type was accepted and stored.
---
 records/fillers/filler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index b58e816..0219ee3 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -193,7 +193,7 @@ class AnnotatedFiller(Filler, Generic[T]):
                     try:
                         arg = coercer(arg)
                         tc = self.type_check(arg)
-                        if tc is None \
+                        if not tc \
                                 or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
                             raise TypeError(f'coercer returned value of wrong type: {type(arg)}')
                     except Exception:
-- 
2.43.0


From ed71c20a38649e06de131beaa245b76d869594c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 02/50] fix: try every coercer on the original value

A coercer that returned a value of the wrong type replaced the argument that
the following coercers were given.
---
 records/fillers/filler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index 0219ee3..d5172d7 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -191,15 +191,16 @@ class AnnotatedFiller(Filler, Generic[T]):
                     raise TypeError(f'failed type checking for value of type {type(arg)}')
                 for i, coercer in enumerate(self.coercers):
                     try:
-                        arg = coercer(arg)
-                        tc = self.type_check(arg)
+                        coerced = coercer(arg)
+                        tc = self.type_check(coerced)
                         if not tc \
                                 or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
-                            raise TypeError(f'coercer returned value of wrong type: {type(arg)}')
+                            raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                     except Exception:
                         if i == len(self.coercers) - 1:
                             raise
                     else:
+                        arg = coerced
                         break
                 tpk = TypePassKind.coerce
 
-- 
2.43.0


From b36cf76d37961509a2bcda9dc35efc475b20b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 03/50] fix: rebuild strings and bounded deques in generic
 sequences

A str given to a field like Sequence[...] whose elements were coerced was
stored as the text of an internal iterator, and a bounded deque given to
MutableSequence[...] lost its maximum length.
---
 records/fillers/builtin_fillers/typing_fillers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index a745b51..3d7a2f8 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -264,6 +264,11 @@ class GenericIterableFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `elements` as its elements.
         """
+        if isinstance(initial, str):
+            # calling str on an iterable would store the iterable's representation
+            return type(initial)(''.join(elements))
+        if isinstance(initial, deque):
+            return type(initial)(elements, initial.maxlen)
         return type(initial)(elements)
 
     def bind(self, owner_cls):
-- 
2.43.0


From bea778fd9cc25ec0ce2610793e8bc9d3b60724f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 04/50] fix: rebuild Counter and ChainMap in generic mappings

Some mapping types do not read an iterable of pairs as items, so a Counter
or ChainMap with coerced items was stored with garbage contents.
---
 records/fillers/builtin_fillers/typing_fillers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 3d7a2f8..25450b4 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -329,7 +329,8 @@ class GenericMappingFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `tuples` as its tuples.
         """
-        return type(initial)(tuples)
+        # not all mapping types accept an iterable of tuples (Counter would count them, ChainMap would store them)
+        return type(initial)(dict(tuples))
 
     def bind(self, owner_cls):
         super().bind(owner_cls)
-- 
2.43.0


From 129abf0a02a29f38cf0b4f2286e3369961254a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 05/50] fix: keep the table of literal values unchanged when
 validating

Looking up the type of a rejected value added it to the table, so later
values of that type passed type checking and were no longer coerced.
---
 records/fillers/builtin_fillers/typing_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 25450b4..568ce77 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -108,7 +108,7 @@ class LiteralFiller(AnnotatedFiller):
         if not self.is_hollow():
             @self.validators.append
             def inner_validator(v):
-                if v not in self.possible_values[type(v)]:
+                if v not in self.possible_values.get(type(v), ()):
                     raise ValueError
                 return v
 
-- 
2.43.0


From 1d750e2a9fd6c899498aea3551f2d342185ab046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 06/50] fix: never return the exclusive maximum from Cyclic

For floats just below the minimum the remainder rounds to the full cycle.
---
 records/fillers/builtin_validators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_validators.py b/records/fillers/builtin_validators.py
index d3652ca..71eb979 100644
--- a/records/fillers/builtin_validators.py
+++ b/records/fillers/builtin_validators.py
@@ -88,7 +88,9 @@ class Cyclic(GlobalValidationToken):
             return v
         d = v - self.minimum
         d %= (self.maximum - self.minimum)
-        return self.minimum + d
+        ret = self.minimum + d
+        # rounding may land on the (exclusive) maximum
+        return self.minimum if ret >= self.maximum else ret
 
     def __call__(self, *_):
         return self.inner
-- 
2.43.0


From 7bc31f10445668ea9f4f6c45473b97647ed54ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 07/50] fix: round nearly whole numbers in Whole instead of
 truncating them

2.9999999999 was converted to 2.
---
 records/fillers/builtin_fillers/std_fillers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/std_fillers.py b/records/fillers/builtin_fillers/std_fillers.py
index c90ce6a..345e611 100644
--- a/records/fillers/builtin_fillers/std_fillers.py
+++ b/records/fillers/builtin_fillers/std_fillers.py
@@ -265,7 +265,8 @@ class Whole(OriginDependant):
         elif isinstance(v, Real):
             mod = v % 1
             if isclose(mod, 0) or isclose(mod, 1):
-                return origin(v, *self.args, **self.kwargs)
+                # a value just below a whole number must not be truncated to the previous one
+                return origin(round(v), *self.args, **self.kwargs)
         elif isinstance(v, Complex):
             if v.imag == 0:
                 return self.func_args(origin, v.real)
-- 
2.43.0


From cc30f28b35366016af2790dde971b7049f8fd429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 08/50] fix: store the instructions of a Select in tuples

Iterators were consumed by the truth check and the first application, and
lists could be changed by the caller.
---
 records/select.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/records/select.py b/records/select.py
index 4b3678d..d499deb 100644
--- a/records/select.py
+++ b/records/select.py
@@ -44,12 +44,13 @@ class Select:
             keys_to_remove = (keys_to_remove,)
         if isinstance(keys_to_maybe_remove, str):
             keys_to_maybe_remove = (keys_to_maybe_remove,)
-        self.keys_to_add = keys_to_add
-        self.keys_to_maybe_add = keys_to_maybe_add
-        self.keys_to_remove = keys_to_remove
-        self.keys_to_maybe_remove = keys_to_maybe_remove
-        self.keys_to_rename = keys_to_rename
-        self.keys_to_maybe_rename = keys_to_maybe_rename
+        # the iterables may be iterators, which can be consumed only once
+        self.keys_to_add = tuple(keys_to_add)
+        self.keys_to_maybe_add = tuple(keys_to_maybe_add)
+        self.keys_to_remove = tuple(keys_to_remove)
+        self.keys_to_maybe_remove = tuple(keys_to_maybe_remove)
+        self.keys_to_rename = tuple(keys_to_rename)
+        self.keys_to_maybe_rename = tuple(keys_to_maybe_rename)
 
         # the Select's truthiness is cached
         self._bool = None
-- 
2.43.0


From ff7d082d1d8d6c0991804bd811686f65c9ab6747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 09/50] fix: forbid deleting attributes of frozen records

---
 records/record.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/records/record.py b/records/record.py
index 75703a0..3f8a701 100644
--- a/records/record.py
+++ b/records/record.py
@@ -138,6 +138,7 @@ class RecordBase:
         cls._unary_parse = unary_parse
         if frozen:
             cls.__setattr__ = RecordBase.__setattr__
+            cls.__delattr__ = RecordBase.__delattr__
             cls.__hash__ = RecordBase.__hash__
         else:
             cls.__setattr__ = object.__setattr__
@@ -425,6 +426,11 @@ class RecordBase:
             return super().__setattr__(a, value)
         raise TypeError(f'{type(self).__qualname__} is frozen')
 
+    def __delattr__(self, a):
+        if self._frozen:
+            raise TypeError(f'{type(self).__qualname__} is frozen')
+        super().__delattr__(a)
+
     def __getnewargs_ex__(self):
         return (), self.to_dict()
 
-- 
2.43.0


From 20f045b21d4a8d28c305ecd472ef6798f4f54a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 10/50] fix: compare frozen records that hold unhashable values

Equality only uses the hashes as a shortcut if both are already known.
---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 3f8a701..43fc037 100644
--- a/records/record.py
+++ b/records/record.py
@@ -282,7 +282,7 @@ class RecordBase:
     def __eq__(self, other):
         if type(self) != type(other):
             return False
-        if type(self).is_frozen() and hash(self) != hash(other):
+        if type(self).is_frozen() and None not in (self._hash, other._hash) and self._hash != other._hash:
             return False
         for name in self._fields:
             if getattr(self, name) != getattr(other, name):
-- 
2.43.0


From 55992b07e65670d0ede78d0602afea6273b60dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 11/50] fix: keep the fields of subclasses in a FieldDict

filter_by_tag was missing from classes that inherit fields.
---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 43fc037..9a20a22 100644
--- a/records/record.py
+++ b/records/record.py
@@ -122,7 +122,7 @@ class RecordBase:
                     raise ValueError(f'cannot override inherited field {k}')
                 parent_fields[k] = field
         if parent_fields:
-            cls._fields = {**parent_fields, **cls._fields}
+            cls._fields = FieldDict({**parent_fields, **cls._fields})
 
         if any(b for b in cls.__bases__ if b.__init__ not in (RecordBase.__init__, object.__init__)):
             warn(f'class {cls} has parents that implement __init__, the initializer will not be called!')
-- 
2.43.0


From cf8daa5d00ff930d86cd4b1b7619842732b1628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 12/50] fix: do not discard falsy records from post_new and
 parsing

Records may define __len__ or __bool__; only None means "no record".
---
 records/record.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index 9a20a22..b609f6f 100644
--- a/records/record.py
+++ b/records/record.py
@@ -238,10 +238,12 @@ class RecordBase:
             self._hash = None
 
         try:
-            self = self.post_new() or self
+            replacement = self.post_new()
+            if replacement is not None:
+                self = replacement
         except Exception:
             # post_new may perform validations and if it fails, we want to return the parsing
-            if parsing:
+            if parsing is not None:
                 return parsing
             raise
 
-- 
2.43.0


From 77dd746e6ca8221ea58ded01a216663bbe71824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 13/50] fix: allow fields named arg, cls and self

Keyword arguments for such fields were bound to the parameters of the
constructor.
---
 records/record.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/records/record.py b/records/record.py
index b609f6f..0ec7c69 100644
--- a/records/record.py
+++ b/records/record.py
@@ -166,7 +166,7 @@ class RecordBase:
         """
         pass
 
-    def __new__(cls, arg=NO_ARG, **kwargs):
+    def __new__(*args, **kwargs):
         """
         Create an instance of the class.
 
@@ -181,6 +181,12 @@ class RecordBase:
             If ``arg`` can be interpreted as both a parsing argument and as the trivial field. A ``TypeError`` is
             raised.
         """
+        # the parameters have no names, so that fields may have any name
+        cls, *args = args
+        if len(args) > 1:
+            raise TypeError(f'class {cls.__qualname__} accepts at most one positional argument')
+        arg = args[0] if args else NO_ARG
+
         # parsing stores the parsing result, if any
         parsing = None
         if arg is not NO_ARG:
@@ -231,7 +237,7 @@ class RecordBase:
         for k in cls._optional_keys.difference(kwargs):
             values[k] = cls._fields[k].make_default()
 
-        self = super().__new__(cls)
+        self = super(RecordBase, cls).__new__(cls)
         # we set directly into __dict__ because the class may be frozen and setattr would fail us
         self.__dict__.update(values)
         if cls._frozen:
@@ -265,7 +271,7 @@ class RecordBase:
         """
         pass
 
-    def __init__(self, arg=NO_ARG, **kwargs):
+    def __init__(*args, **kwargs):
         # this init method ensures no other init methods run
         pass
 
-- 
2.43.0


From 37e8e08c1bf747d9cc1bccf875a9ccb43a3ee9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 14/50] fix: accept several mappings in from_instance

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 0ec7c69..833a7f9 100644
--- a/records/record.py
+++ b/records/record.py
@@ -487,7 +487,7 @@ class RecordBase:
             This class method is a registered parser that will be attempted when calling ``cls.parse``.
         """
         d = cls._to_dict(v, _rev_select=_select)
-        d.update(*maps, **kwargs)
+        d.update(ChainMap(*maps), **kwargs)
         return d
 
     @parser
-- 
2.43.0


From c4f49e3edee53fe0b902b6ef4a962e2361741439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 15/50] fix: do not make fields of bare ClassVar declarations

---
 records/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/field.py b/records/field.py
index 31bd34c..bfcccbb 100644
--- a/records/field.py
+++ b/records/field.py
@@ -112,7 +112,7 @@ class RecordField:
             raise TypeError('raw Final cannot be use inside records')
         origin, args = split_annotation(th)
         meta_org = get_origin(origin)
-        if meta_org == ClassVar:
+        if origin is ClassVar or meta_org == ClassVar:
             return SKIP_FIELD
         if meta_org is Final:
             if not owner.is_frozen():
-- 
2.43.0


From 3f29850b405078755ef70773984485ddc00512bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 16/50] fix: apply the tokens of an annotated Final

Checks, coercers and validators in Annotated[Final[T], ...] were ignored.
---
 records/field.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/records/field.py b/records/field.py
index bfcccbb..c2c32a8 100644
--- a/records/field.py
+++ b/records/field.py
@@ -7,7 +7,7 @@ from records.fillers.filler import Filler
 from records.fillers.get_filler import get_filler
 from records.tags import Tag
 from records.utils.decorators import decorator_kw_method
-from records.utils.typing_compatible import get_args, get_origin, split_annotation
+from records.utils.typing_compatible import Annotated, get_args, get_origin, split_annotation
 
 try:
     from typing import Final
@@ -117,7 +117,10 @@ class RecordField:
         if meta_org is Final:
             if not owner.is_frozen():
                 raise TypeError('cannot declare Final field in non-frozen Record')
-            ret = cls.from_type_hint(get_args(origin)[0], owner=owner, **kwargs)
+            inner = get_args(origin)[0]
+            if args:
+                inner = Annotated[(inner, *args)]
+            ret = cls.from_type_hint(inner, owner=owner, **kwargs)
         else:
             filler = get_filler(th)
             ret = cls(filler=filler, owner=owner, **kwargs)
-- 
2.43.0


From 3e57f14b7ae0f32497b9f275518b34b5040637d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 17/50] fix: keep values equal to defaults and aliasing when
 copying records

Copies replaced values that equal the default with the default object, which
is shared by all records, and an empty deepcopy memo was not passed on.
---
 records/record.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/records/record.py b/records/record.py
index 833a7f9..a5654cf 100644
--- a/records/record.py
+++ b/records/record.py
@@ -655,15 +655,20 @@ class RecordBase:
             return extras.pickle.dumps(self, *args, **kwargs)
         extras.pickle.dump(self, io, *args, **kwargs)
 
+    def __non_default_values(self):
+        # unlike in to_dict, values that are merely equal to the default are included, since they must be kept in copies
+        return {k: v for (k, v) in self.to_dict(include_defaults=True).items()
+                if type(self)._fields[k].default is not v}
+
     def __copy__(self):
         if self.is_frozen():
             return self
-        return type(self).from_instance(self)
+        return self.from_mapping(self.__non_default_values())
 
     def __deepcopy__(self, memo=None):
-        memo = memo or {}
-        d = self.to_dict()
-        d = deepcopy(d, memo)
+        if memo is None:
+            memo = {}
+        d = deepcopy(self.__non_default_values(), memo)
         return self.from_mapping(d)
 
     def __ordering_key(self):
-- 
2.43.0


From e272c6a21a5df959ef31b0e5fc6d79e6a1a2397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 18/50] fix: forget the cached hash of unpickled records

String hashes differ between processes, so unpickled frozen records did not
equal, and were not found in sets and dicts with, the same records built
there.
---
 records/record.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/records/record.py b/records/record.py
index a5654cf..5e0d918 100644
--- a/records/record.py
+++ b/records/record.py
@@ -442,6 +442,15 @@ class RecordBase:
     def __getnewargs_ex__(self):
         return (), self.to_dict()
 
+    def __setstate__(self, state):
+        attributes, slots = state if isinstance(state, tuple) else (state, {})
+        self.__dict__.update(attributes or {})
+        for k, v in slots.items():
+            object.__setattr__(self, k, v)
+        if self._frozen:
+            # a pickled hash is meaningless in other processes, since string hashes are randomized
+            self._hash = None
+
     @parser
     @SelectableFactory
     @classmethod
-- 
2.43.0


From e3cc00406b95eed3c6bb9ce0b9d03f64ee3d6ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 19/50] fix: call default factories in field order

The order depended on the hash seed of the process.
---
 records/record.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index 5e0d918..7490af9 100644
--- a/records/record.py
+++ b/records/record.py
@@ -234,8 +234,9 @@ class RecordBase:
         if not (cls._required_keys <= kwargs.keys()):
             required = cls._required_keys.difference(kwargs)
             raise TypeError(f'missing required arguments: {tuple(required)}')
-        for k in cls._optional_keys.difference(kwargs):
-            values[k] = cls._fields[k].make_default()
+        for k, field in cls._fields.items():
+            if k not in kwargs:
+                values[k] = field.make_default()
 
         self = super(RecordBase, cls).__new__(cls)
         # we set directly into __dict__ because the class may be frozen and setattr would fail us
-- 
2.43.0


From c52b4132f2a1e8d525c4d91faad394f06a932b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 20/50] fix: never run initializers of mixins and subclasses

As the warnings state, they must not be called, but they were if the mixin
preceded the record class or the class itself defined __init__.
---
 records/record.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/records/record.py b/records/record.py
index 7490af9..5b81d77 100644
--- a/records/record.py
+++ b/records/record.py
@@ -144,6 +144,8 @@ class RecordBase:
             cls.__setattr__ = object.__setattr__
             cls.__hash__ = None
 
+        cls.__init__ = RecordBase.__init__
+
         # all validator tokens go here
         cls.pre_bind()
 
-- 
2.43.0


From 766c65b30424d8713ba2719a75ae2b3f5e092483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 21/50] fix: extract all attributes that the selection of
 from_instance names

Attributes equal to the default of their field were treated as missing when
removing or conditionally adding them, and added keys could not also be
renamed or removed.
---
 records/record.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/records/record.py b/records/record.py
index 5b81d77..1e34cd7 100644
--- a/records/record.py
+++ b/records/record.py
@@ -360,9 +360,13 @@ class RecordBase:
         if _rev_select:
             missing_ok = set(missing_ok)
             extraction_dict = dict(extraction_dict)
+            for key, _ in _rev_select.keys_to_add:
+                extraction_dict.pop(key, None)
+            for key, _ in _rev_select.keys_to_maybe_add:
+                # the key must be extracted even if its value is the default
+                if key in extraction_dict:
+                    extraction_dict[key] = cls._MockField(name=key)
             for to_remove in _rev_select.keys_to_remove:
-                if to_remove in cls._fields:
-                    continue
                 extraction_dict[to_remove] = cls._MockField(name=to_remove)
             for old, new in _rev_select.keys_to_rename:
                 missing_ok.add(new)
@@ -371,8 +375,6 @@ class RecordBase:
                 missing_ok.add(new)
                 missing_ok.add(old)
                 extraction_dict[old] = cls._MockField(name=old)
-            for key, _ in _rev_select.keys_to_add:
-                extraction_dict.pop(key, _)
         fields_to_extract = extraction_dict.values()
 
         def tuples():
-- 
2.43.0


From fe64ed49de0da1a1da8cb249a59d8e2056549858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 22/50] fix: accept all types in Type[Any]

---
 records/fillers/builtin_fillers/typing_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 568ce77..0d37f2d 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -437,7 +437,7 @@ def _typing(stored_type):
     if origin_cls == Literal:
         return LiteralFiller
     if origin_cls == type:
-        if has_args(stored_type):
+        if has_args(stored_type) and get_args(stored_type)[0] is not Any:
             return TypeFiller
         return GetFiller(type)
     if origin_cls == CallableBase:
-- 
2.43.0


From 51d02a60033bc487c50d0e807b77487f42560045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 23/50] fix: accept only empty tuples in Tuple[()]

---
 records/fillers/builtin_fillers/typing_fillers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 0d37f2d..a1cd246 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -442,6 +442,9 @@ def _typing(stored_type):
         return GetFiller(type)
     if origin_cls == CallableBase:
         return GetFiller(callable)
+    if origin_cls == tuple and getattr(stored_type, '__args__', None) == ():
+        # Tuple[()]
+        return TupleFiller
     if has_args(stored_type):
         t = genric_origin_map.get(origin_cls)
         if t:
-- 
2.43.0


From c2b0e1e6f01d57b3ecf19d244a00bfc3bc0841f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 24/50] fix: do not accumulate tracebacks in shared error
 instances

Every rejection kept its frames, and thus the rejected values, alive for as
long as the record class.
---
 records/fillers/validators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/fillers/validators.py b/records/fillers/validators.py
index 391234c..7ceb58e 100644
--- a/records/fillers/validators.py
+++ b/records/fillers/validators.py
@@ -64,7 +64,8 @@ class AssertValidation(GlobalValidationToken, ABC):
             else:
                 self.warn.warning(exc)
         else:
-            raise exc
+            # the same error instance might be raised many times, it must not accumulate the frames of all of them
+            raise exc.with_traceback(None)
 
     @abstractmethod
     def assert_(self, v) -> bool:
-- 
2.43.0


From b2dc202cf148f2b127cacc7980aefebf03491305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 25/50] fix: the style of a nested union prevails over that of
 the enclosing union

---
 records/fillers/builtin_fillers/typing_fillers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index a1cd246..377d549 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -72,7 +72,8 @@ class UnionFiller(Filler):
     def bind(self, owner_cls):
         super().bind(owner_cls)
         for sf in self.sub_fillers:
-            for t in chain(self.args, self.applied):
+            # the tokens of the enclosing unions come first, so that the nearest type checking style prevails
+            for t in chain(self.applied, self.args):
                 sf.apply(t)
 
             sf.bind(owner_cls)
-- 
2.43.0


From 862dceb151b8708b0b45eb87a4dcb1f7293ef221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 26/50] fix: reconstruct defaultdicts in fields of other
 mapping types

---
 records/fillers/builtin_fillers/typing_fillers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 377d549..c5ac25f 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -330,6 +330,8 @@ class GenericMappingFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `tuples` as its tuples.
         """
+        if isinstance(initial, defaultdict):
+            return type(initial)(initial.default_factory, tuples)
         # not all mapping types accept an iterable of tuples (Counter would count them, ChainMap would store them)
         return type(initial)(dict(tuples))
 
-- 
2.43.0


From cbc09635c25f41ecb8cb5b9d18be8b857b7c65f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 27/50] fix: Cyclic with Decimals below the minimum

---
 records/fillers/builtin_validators.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/records/fillers/builtin_validators.py b/records/fillers/builtin_validators.py
index 71eb979..ef3d199 100644
--- a/records/fillers/builtin_validators.py
+++ b/records/fillers/builtin_validators.py
@@ -86,9 +86,11 @@ class Cyclic(GlobalValidationToken):
     def inner(self, v):
         if self.minimum <= v < self.maximum:
             return v
-        d = v - self.minimum
-        d %= (self.maximum - self.minimum)
-        ret = self.minimum + d
+        span = self.maximum - self.minimum
+        ret = self.minimum + (v - self.minimum) % span
+        if ret < self.minimum:
+            # the remainder of some types (i.e. Decimal) has the sign of the dividend
+            ret += span
         # rounding may land on the (exclusive) maximum
         return self.minimum if ret >= self.maximum else ret
 
-- 
2.43.0


From 7968355f85310b06288487bb2dc3f75c8d208e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 28/50] fix: reject impossible bounds of Cyclic at declaration

---
 records/fillers/builtin_validators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/records/fillers/builtin_validators.py b/records/fillers/builtin_validators.py
index ef3d199..b01ca44 100644
--- a/records/fillers/builtin_validators.py
+++ b/records/fillers/builtin_validators.py
@@ -82,6 +82,8 @@ class Cyclic(GlobalValidationToken):
         super().__init__(**kwargs)
         self.minimum = minimum
         self.maximum = maximum
+        if self.minimum >= self.maximum:
+            raise ValueError('the minimum must be less than the maximum')
 
     def inner(self, v):
         if self.minimum <= v < self.maximum:
-- 
2.43.0


From f84a91b2154e4bd2b8f6a3ebede4f013fd16aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 29/50] fix: expressions can no longer alter the namespace of
 Eval

---
 records/fillers/builtin_fillers/std_fillers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/std_fillers.py b/records/fillers/builtin_fillers/std_fillers.py
index 345e611..4e4afd8 100644
--- a/records/fillers/builtin_fillers/std_fillers.py
+++ b/records/fillers/builtin_fillers/std_fillers.py
@@ -45,7 +45,8 @@ class Eval(GlobalCoercionToken):
             if not isinstance(v, str):
                 raise TypeError
             try:
-                ret = eval(v, {'__builtins__': ns})
+                # the namespace is copied since the expression might alter it
+                ret = eval(v, {'__builtins__': dict(ns)})
             except Exception as e:
                 raise TypeError from e
 
-- 
2.43.0


From 7df7657a8c2c7a7a5f382107b90e100e26ce9c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:58 +0000
Subject: [PATCH 30/50] fix: selections no longer alter the mapping returned by
 a selectable factory

---
 records/select.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/select.py b/records/select.py
index d499deb..7868240 100644
--- a/records/select.py
+++ b/records/select.py
@@ -173,7 +173,9 @@ class SelectableFactory(Generic[T]):
         :return: An instance of ``cls`` with arguments from ``self.func`` after ``select``.
         """
         mapping = self.func(cls, *args, **kwargs)
-        mapping = select(mapping)
+        if select:
+            # the function might return a mapping that it does not own, and selecting alters the mapping
+            mapping = select(dict(mapping))
         return cls(**mapping)
 
     def __get__(self, instance, owner):
-- 
2.43.0


From 41ac75552d480343975ee992ceaab2e6f1859ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:40 +0000
Subject: [PATCH 31/50] fix: import from defaultdicts combined with other
 mappings

---
 records/record.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/records/record.py b/records/record.py
index 1e34cd7..0a40b30 100644
--- a/records/record.py
+++ b/records/record.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-from collections import ChainMap
 from copy import deepcopy
 from inspect import getattr_static
 from typing import AbstractSet, Any, Callable, ClassVar, Container, Dict, List, Mapping, Optional, TypeVar, Union, \
@@ -46,6 +45,21 @@ class ParseFailure(TypeError):
     pass
 
 
+def _combine(*maps: Mapping[str, Any]) -> Dict[str, Any]:
+    """
+    combine mappings to a dict, earlier mappings win over later ones
+
+    .. note::
+        unlike in a ``ChainMap``, only the keys of each mapping are looked up in it, so that a mapping with implicit values
+        (i.e. a ``defaultdict``) is neither altered nor hides the mappings after it
+    """
+    ret = {}
+    for m in reversed(maps):
+        for k in m:
+            ret[k] = m[k]
+    return ret
+
+
 T = TypeVar('T')
 FORBIDDEN_CLASS_ATTRS = ('__init__', '__setattr__', '__hash__')
 
@@ -474,7 +488,7 @@ class RecordBase:
         .. note::
             This class method is a registered parser that will be attempted when calling ``cls.parse``.
         """
-        return ChainMap(*maps, dict(**kwargs))
+        return _combine(*maps, kwargs)
 
     @SpecializedShortcutFactory
     @classmethod
@@ -501,7 +515,7 @@ class RecordBase:
             This class method is a registered parser that will be attempted when calling ``cls.parse``.
         """
         d = cls._to_dict(v, _rev_select=_select)
-        d.update(ChainMap(*maps), **kwargs)
+        d.update(_combine(*maps), **kwargs)
         return d
 
     @parser
-- 
2.43.0


From b2bb88735c42cddbd2795079160151c7d468c168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:20 +0000
Subject: [PATCH 32/50] fix: copy mutable defaults in deep copies

---
 records/record.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index 0a40b30..3feebb4 100644
--- a/records/record.py
+++ b/records/record.py
@@ -696,8 +696,9 @@ class RecordBase:
     def __deepcopy__(self, memo=None):
         if memo is None:
             memo = {}
-        d = deepcopy(self.__non_default_values(), memo)
-        return self.from_mapping(d)
+        d = deepcopy(self.to_dict(include_defaults=True), memo)
+        # mutable defaults must be copied too, all other defaults need no processing
+        return self.from_mapping({k: v for (k, v) in d.items() if type(self)._fields[k].default is not v})
 
     def __ordering_key(self):
         f: RecordField
-- 
2.43.0


From 00e6b1f6ca4399c72c20a2b040e5f2e00c76484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 33/50] fix: name the field whatever the constructor of the
 original error raises

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 3feebb4..9cc06ca 100644
--- a/records/record.py
+++ b/records/record.py
@@ -243,7 +243,7 @@ class RecordBase:
                 # try to create a parent error of the same type as the original error
                 try:
                     parent_error = type(e)(msg)
-                except TypeError:
+                except Exception:
                     parent_error = ValueError(msg)
 
                 raise parent_error from e
-- 
2.43.0


From e2aa4ab19b867d755a6129671920c90aa894ecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 34/50] fix: allow a decoder class to be passed to from_json
 and from_json_io as cls

---
 records/record.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index 9cc06ca..7ce8d07 100644
--- a/records/record.py
+++ b/records/record.py
@@ -529,7 +529,7 @@ class RecordBase:
     @parser
     @SelectableFactory
     @classmethod
-    def from_json(cls, v, **kwargs):
+    def from_json(cls_, v, **kwargs):
         """
         Convert a JSON mapping to a Record instance.
 
@@ -544,11 +544,12 @@ class RecordBase:
         .. note::
             This class method is a registered parser that will be attempted when calling ``cls.parse``.
         """
+        # the parameter is not called cls, so that a decoder class can be passed on by that name
         return extras.json.loads(v, **kwargs)
 
     @SelectableFactory
     @classmethod
-    def from_json_io(cls, v, **kwargs):
+    def from_json_io(cls_, v, **kwargs):
         """
         Convert a JSON file to a Record instance.
 
@@ -561,6 +562,7 @@ class RecordBase:
         .. note::
             This class method supports :ref:`selection`.
         """
+        # the parameter is not called cls, so that a decoder class can be passed on by that name
         return extras.json.load(v, **kwargs)
 
     @classmethod
-- 
2.43.0


From 37688d513169061b5eae38132219bfb7153e91ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:38 +0000
Subject: [PATCH 35/50] fix: let from_instance selections maybe-add required
 fields that the object lacks

---
 records/record.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/records/record.py b/records/record.py
index 7ce8d07..d19d7e2 100644
--- a/records/record.py
+++ b/records/record.py
@@ -377,6 +377,7 @@ class RecordBase:
             for key, _ in _rev_select.keys_to_add:
                 extraction_dict.pop(key, None)
             for key, _ in _rev_select.keys_to_maybe_add:
+                missing_ok.add(key)
                 # the key must be extracted even if its value is the default
                 if key in extraction_dict:
                     extraction_dict[key] = cls._MockField(name=key)
-- 
2.43.0


From db0b8ed8108df36be03cadf6581f59a9e93c9a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:46 +0000
Subject: [PATCH 36/50] fix: from_instance no longer requires attributes that
 the mappings or keywords supply

---
 records/record.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index d19d7e2..9441e69 100644
--- a/records/record.py
+++ b/records/record.py
@@ -515,8 +515,12 @@ class RecordBase:
         .. note::
             This class method is a registered parser that will be attempted when calling ``cls.parse``.
         """
+        extra = _combine(kwargs, *maps)
+        if extra:
+            # the object need not have the attributes that are supplied otherwise
+            _select = _select.merge(keys_to_maybe_add=extra)
         d = cls._to_dict(v, _rev_select=_select)
-        d.update(_combine(*maps), **kwargs)
+        d.update(extra)
         return d
 
     @parser
-- 
2.43.0


From 634dc9050c602867576b9de90f89fd19d376d3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 37/50] fix: ignore wrapped functions among foreign annotation
 metadata

---
 records/fillers/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/records/fillers/util.py b/records/fillers/util.py
index edf8f1a..bc6c777 100644
--- a/records/fillers/util.py
+++ b/records/fillers/util.py
@@ -8,13 +8,14 @@ def _as_instance(obj, cls: Type[T]) -> Optional[T]:
     Check that an object is of a type, or construct if it is a class.
     :param obj: The object to check and coerce.
     :param cls: The target class to check against.
-    :return: `obj`, if it is an instance of `cls`, `obj()` if it is a subclass of `cls`, or `None` otherwise.
+    :return: `obj`, if it is an instance of `cls`, `obj()` if it is a subclass of `cls` or wraps one, or `None` otherwise.
     """
     if isinstance(obj, cls):
         return obj
     elif isinstance(obj, type) and issubclass(obj, cls):
         return obj()
     wrapped = getattr(obj, '__wrapped__', None)
-    if wrapped is not None:
+    # only factories of tokens are called, metadata that is not meant for records might be any wrapped function
+    if isinstance(wrapped, type) and issubclass(wrapped, cls):
         return obj()
     return None
-- 
2.43.0


From b1725454e30d911e10bb6dc76ea76b853a166003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 38/50] fix: rebuild UserStrings in generic sequences

---
 records/fillers/builtin_fillers/typing_fillers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index c5ac25f..7f50127 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import collections.abc as abstract_collections
 import contextlib
-from collections import defaultdict, deque
+from collections import UserString, defaultdict, deque
 from collections.abc import Callable as CallableBase
 from itertools import chain, islice
 from typing import Any, Sequence, TypeVar, Union
@@ -265,7 +265,7 @@ class GenericIterableFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `elements` as its elements.
         """
-        if isinstance(initial, str):
+        if isinstance(initial, (str, UserString)):
             # calling str on an iterable would store the iterable's representation
             return type(initial)(''.join(elements))
         if isinstance(initial, deque):
-- 
2.43.0


From 3f65640865f985235f5581bacf6aacccc9c5c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 39/50] fix: copy and unpickle stored values without processing
 them again

---
 records/record.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/records/record.py b/records/record.py
index 9441e69..ddc8c50 100644
--- a/records/record.py
+++ b/records/record.py
@@ -60,6 +60,19 @@ def _combine(*maps: Mapping[str, Any]) -> Dict[str, Any]:
     return ret
 
 
+class _Filled:
+    """
+    A wrapper for keyword arguments that have already been filled, i.e. values that are stored in a record
+    """
+    __slots__ = 'value',
+
+    def __init__(self, value):
+        self.value = value
+
+    def __reduce__(self):
+        return _Filled, (self.value,)
+
+
 T = TypeVar('T')
 FORBIDDEN_CLASS_ATTRS = ('__init__', '__setattr__', '__hash__')
 
@@ -233,6 +246,10 @@ class RecordBase:
             raise TypeError(f'arguments {redundant} invalid for type {cls.__qualname__}')
 
         for k, v in kwargs.items():
+            if type(v) is _Filled:
+                # the value comes from a record that is being copied or unpickled, it must not be processed again
+                values[k] = v.value
+                continue
             try:
                 values[k] = cls._fields[k].filler(v)
             except Exception as e:
@@ -460,7 +477,7 @@ class RecordBase:
         super().__delattr__(a)
 
     def __getnewargs_ex__(self):
-        return (), self.to_dict()
+        return (), {k: _Filled(v) for (k, v) in self.__stored_values().items()}
 
     def __setstate__(self, state):
         attributes, slots = state if isinstance(state, tuple) else (state, {})
@@ -690,22 +707,18 @@ class RecordBase:
             return extras.pickle.dumps(self, *args, **kwargs)
         extras.pickle.dump(self, io, *args, **kwargs)
 
-    def __non_default_values(self):
-        # unlike in to_dict, values that are merely equal to the default are included, since they must be kept in copies
-        return {k: v for (k, v) in self.to_dict(include_defaults=True).items()
-                if type(self)._fields[k].default is not v}
+    def __stored_values(self):
+        return {k: self.__dict__[k] for k in type(self)._fields if k in self.__dict__}
 
     def __copy__(self):
         if self.is_frozen():
             return self
-        return self.from_mapping(self.__non_default_values())
+        return type(self)(**{k: _Filled(v) for (k, v) in self.__stored_values().items()})
 
     def __deepcopy__(self, memo=None):
         if memo is None:
             memo = {}
-        d = deepcopy(self.to_dict(include_defaults=True), memo)
-        # mutable defaults must be copied too, all other defaults need no processing
-        return self.from_mapping({k: v for (k, v) in d.items() if type(self)._fields[k].default is not v})
+        return type(self)(**{k: _Filled(v) for (k, v) in deepcopy(self.__stored_values(), memo).items()})
 
     def __ordering_key(self):
         f: RecordField
-- 
2.43.0


From 465dbd33887546db1a1e902aceb92c0db9d04e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 40/50] fix: keep cycles in deep copies of records

---
 records/record.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index ddc8c50..acd259d 100644
--- a/records/record.py
+++ b/records/record.py
@@ -718,7 +718,11 @@ class RecordBase:
     def __deepcopy__(self, memo=None):
         if memo is None:
             memo = {}
-        return type(self)(**{k: _Filled(v) for (k, v) in deepcopy(self.__stored_values(), memo).items()})
+        values = deepcopy(self.__stored_values(), memo)
+        if id(self) in memo:
+            # the values refer to the record, which has been copied with them
+            return memo[id(self)]
+        return type(self)(**{k: _Filled(v) for (k, v) in values.items()})
 
     def __ordering_key(self):
         f: RecordField
-- 
2.43.0


From df678586584b2be1674180552dd27878245371b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 41/50] fix: honour the tokens and tags of annotated types
 inside new types

---
 records/utils/typing_compatible.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/records/utils/typing_compatible.py b/records/utils/typing_compatible.py
index 9d039b9..01842dc 100644
--- a/records/utils/typing_compatible.py
+++ b/records/utils/typing_compatible.py
@@ -53,10 +53,16 @@ else:
 
 
 def split_annotation(v):
-    if not is_annotation(v):
-        return v, ()
-    t, *args = get_args(v)
-    return t, args
+    args = ()
+    while True:
+        if is_annotation(v):
+            v, *inner_args = get_args(v)
+            args = (*inner_args, *args)
+        elif getattr(v, '__supertype__', None) is not None:
+            # a newtype might be of an annotated type
+            v = v.__supertype__
+        else:
+            return v, args
 
 
 __all__ = ['get_args', 'get_origin', 'Annotated', 'get_type_hints', 'is_annotation', 'split_annotation']
-- 
2.43.0


From 2f363488c897c0a3687608e3e56397be6e55421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 42/50] fix: refuse type checking and coercion declared inside
 hints that are no types

---
 records/fillers/get_filler.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/records/fillers/get_filler.py b/records/fillers/get_filler.py
index d440fe3..7e766fa 100644
--- a/records/fillers/get_filler.py
+++ b/records/fillers/get_filler.py
@@ -1,7 +1,33 @@
 from records.fillers.builtin_fillers.recurse import GetFiller
 from records.fillers.builtin_fillers.repo import builtin_filler_checkers, builtin_filler_map
+from records.fillers.coercers import CoercionToken
 from records.fillers.filler import Filler, TypeCheckStyle, TypePassKind, FillingSuccess
-from records.utils.typing_compatible import split_annotation
+from records.utils.typing_compatible import get_args, split_annotation
+
+
+def _is_processing(token) -> bool:
+    """
+    :param token: an argument of an ``Annotated``
+    :return: whether the token declares type checking or coercion
+    """
+    if isinstance(token, TypeCheckStyle):
+        return token in (TypeCheckStyle.check, TypeCheckStyle.check_strict)
+    if isinstance(token, CoercionToken):
+        return True
+    # token classes, or factories of tokens
+    cls = token if isinstance(token, type) else getattr(token, '__wrapped__', None)
+    return isinstance(cls, type) and issubclass(cls, CoercionToken)
+
+
+def _declares_processing(hint) -> bool:
+    """
+    :param hint: a type hint, or a sequence of type hints (i.e. the parameters of a callable)
+    :return: whether type checking or coercion is declared for any type inside ``hint``
+    """
+    if isinstance(hint, (list, tuple)):
+        return any(_declares_processing(h) for h in hint)
+    origin, args = split_annotation(hint)
+    return any(_is_processing(token) for token in args) or _declares_processing(get_args(origin))
 
 
 class DumbFiller(Filler):
@@ -20,6 +46,8 @@ class DumbFiller(Filler):
         super().bind(owner_cls)
         if owner_cls.default_type_check_style() is not TypeCheckStyle.hollow:
             raise TypeError(f'cannot have type checking for origin type {self.origin}')
+        if _declares_processing(self.origin):
+            raise TypeError(f'cannot have type checking or coercion inside origin type {self.origin}')
 
     def apply(self, token):
         raise TypeError(f'cannot have tokens for origin type {self.origin}')
-- 
2.43.0


From 0364b785c3ae3f061058934eaf6c9348fab2068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:15 +0000
Subject: [PATCH 43/50] fix: mappings that create their items on each iteration
 (i.e. os.environ) are stored as they are if no item changes

---
 records/fillers/builtin_fillers/typing_fillers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 7f50127..bc9d9ca 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -347,13 +347,14 @@ class GenericMappingFiller(WrapperFiller):
             def inner_validator(value):
                 # there are no shortcuts here since maps can't be slices
                 # (and thus this conversion would always require O(n) space)
-                tuples = [
-                    (self.key_filler(k), self.value_filler(v))
-                    for k, v in value.items()
-                ]
+                # the items are iterated once, since a mapping might create them anew on each iteration
+                items, tuples = [], []
+                for k, v in value.items():
+                    items.append((k, v))
+                    tuples.append((self.key_filler(k), self.value_filler(v)))
                 if any(
                         (k is not filled_k) or (v is not filled_v)
-                        for ((k, v), (filled_k, filled_v)) in zip(value.items(), tuples)
+                        for ((k, v), (filled_k, filled_v)) in zip(items, tuples)
                 ):
                     return self.reconstruct(tuples, value)
                 else:
-- 
2.43.0


From b554b4a3f1565399aae9154663eee5b8258cdc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 44/50] fix: rebuild named tuples whose elements change

---
 .../fillers/builtin_fillers/typing_fillers.py    | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index bc9d9ca..4937020 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -157,6 +157,16 @@ class TypeFiller(WrapperFiller):
                 return v
 
 
+def _rebuild_tuple(initial, elements):
+    """
+    :param initial: a tuple, possibly of a subclass
+    :param elements: an iterable of elements
+    :return: a tuple of the same type as `initial`, with `elements` as its elements
+    """
+    # the constructors of named tuples accept each element as a separate argument
+    return getattr(type(initial), '_make', type(initial))(elements)
+
+
 class TupleFiller(WrapperFiller):
     """
     A filler for a parameterized typing.Tuple
@@ -193,7 +203,7 @@ class TupleFiller(WrapperFiller):
                                 [filled],
                                 (inner_filler.__call__(a) for a in v[hollow_passes + 1:])
                             )
-                            return type(v)(all_elements)
+                            return _rebuild_tuple(v, all_elements)
                     return v
         else:
             if not self.is_hollow():
@@ -223,7 +233,7 @@ class TupleFiller(WrapperFiller):
                                 (if_(a) for (a, if_) in zip(v[hollow_passes + 1:],
                                                             self.sub_fillers[hollow_passes + 1:]))
                             )
-                            return type(v)(all_elements)
+                            return _rebuild_tuple(v, all_elements)
                     return v
 
     def sub_filler(self, key):
@@ -270,6 +280,8 @@ class GenericIterableFiller(WrapperFiller):
             return type(initial)(''.join(elements))
         if isinstance(initial, deque):
             return type(initial)(elements, initial.maxlen)
+        if isinstance(initial, tuple):
+            return _rebuild_tuple(initial, elements)
         return type(initial)(elements)
 
     def bind(self, owner_cls):
-- 
2.43.0


From 459b313e5e1aac711515c0efb774a2689ccbc258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:29 +0000
Subject: [PATCH 45/50] fix: do not take methods of RecordBase for the defaults
 of fields

---
 records/record.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index acd259d..acab74e 100644
--- a/records/record.py
+++ b/records/record.py
@@ -131,9 +131,13 @@ class RecordBase:
                 # type hints also give things from super classes which we don't want
                 continue
             # initialize the field
+            default = getattr_static(cls, name, NO_DEFAULT)
+            if default is getattr_static(RecordBase, name, NO_DEFAULT):
+                # a method of RecordBase that has the name of the field is not its default
+                default = NO_DEFAULT
             field = RecordField.from_type_hint(type_hint,
                                                owner=cls, name=name,
-                                               default=getattr_static(cls, name, NO_DEFAULT))
+                                               default=default)
             if field is SKIP_FIELD:
                 continue
             cls._fields[name] = field
-- 
2.43.0


From 9ad06a17cd61b3da2f39348dec32ca01fedfea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 46/50] fix: evaluate only the annotations of the class itself,
 those of its parents may name things unknown to it

---
 records/record.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/records/record.py b/records/record.py
index acab74e..9a5e924 100644
--- a/records/record.py
+++ b/records/record.py
@@ -126,10 +126,9 @@ class RecordBase:
         cls._fields = FieldDict()
         # in bodyless classes, __annotations__ refers to parent
         own_annotations = cls.__dict__.get('__annotations__', {})
-        for name, type_hint in get_type_hints(cls, localns={cls.__name__: cls, cls.__qualname__: cls}).items():
-            if name not in own_annotations:
-                # type hints also give things from super classes which we don't want
-                continue
+        # type hints also give things from super classes which we don't want, and which might not be resolvable here
+        annotated = type(cls.__name__, (), {'__annotations__': own_annotations, '__module__': cls.__module__})
+        for name, type_hint in get_type_hints(annotated, localns={cls.__name__: cls, cls.__qualname__: cls}).items():
             # initialize the field
             default = getattr_static(cls, name, NO_DEFAULT)
             if default is getattr_static(RecordBase, name, NO_DEFAULT):
-- 
2.43.0


From b7b0d3182bad64142f2e8bf7086f937335ec544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:15 +0000
Subject: [PATCH 47/50] fix: reject checked types that do not support instance
 checks when the class is created

---
 records/fillers/builtin_fillers/std_fillers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/records/fillers/builtin_fillers/std_fillers.py b/records/fillers/builtin_fillers/std_fillers.py
index 4e4afd8..240514c 100644
--- a/records/fillers/builtin_fillers/std_fillers.py
+++ b/records/fillers/builtin_fillers/std_fillers.py
@@ -252,6 +252,15 @@ class SimpleFiller(AnnotatedFiller[T], Generic[T]):
 
         if self.type_checking_style == TypeCheckStyle.check_strict and isabstract(self.origin):
             raise TypeError(f'cannot create strict checker for abstract class {self.origin}')
+        if self.type_checking_style != TypeCheckStyle.hollow:
+            try:
+                isinstance(None, self.origin)
+            except TypeError as e:
+                # i.e. a TypedDict, or a protocol that cannot be checked at runtime
+                raise TypeError(f'cannot check for instances of {self.origin}') from e
+            except Exception:
+                # the class has an instance check of its own, that might not expect None
+                pass
 
 
 class Whole(OriginDependant):
-- 
2.43.0


From 2f0d732cf3e0b3dc8f5c4c37379170b0bc39f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:26 +0000
Subject: [PATCH 48/50] fix: reject checked Type fields whose parameter does
 not support subclass checks when the class is created

---
 records/fillers/builtin_fillers/typing_fillers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 4937020..b47e2a2 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -150,6 +150,15 @@ class TypeFiller(WrapperFiller):
         super().bind(owner_cls)
 
         if not self.inner_filler.is_hollow():
+            try:
+                issubclass(object, self.base_type)
+            except TypeError as e:
+                # i.e. an annotated or parameterized type, or a newtype
+                raise TypeError(f'cannot check for subclasses of {self.base_type}') from e
+            except Exception:
+                # the class has a subclass check of its own, that might not expect object
+                pass
+
             @self.inner_filler.validators.append
             def inner_validator(v):
                 if not issubclass(v, self.base_type):
-- 
2.43.0


From 773b6ec308664d37c170c652712f8fae7bffdf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:09 +0000
Subject: [PATCH 49/50] fix: accept any container of tags to blacklist, as
 documented

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 9a5e924..64fedac 100644
--- a/records/record.py
+++ b/records/record.py
@@ -382,7 +382,7 @@ class RecordBase:
 
         def export_field(f: RecordField):
             # check if we can rule out a field without even knowing its value
-            return f.name in whitelist_keys or not (f.tags & blacklist_tags)
+            return f.name in whitelist_keys or not any(tag in blacklist_tags for tag in f.tags)
 
         def export_value(f: RecordField, v):
             return f.name in whitelist_keys \
-- 
2.43.0


From d34fc3a437a6949d2b1f793a58aeaee0a3e8832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:36 +0000
Subject: [PATCH 50/50] fix: refuse to replace the stored hash of frozen
 records, like any other attribute

---
 records/record.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/records/record.py b/records/record.py
index 64fedac..104e7ac 100644
--- a/records/record.py
+++ b/records/record.py
@@ -278,7 +278,7 @@ class RecordBase:
         # we set directly into __dict__ because the class may be frozen and setattr would fail us
         self.__dict__.update(values)
         if cls._frozen:
-            self._hash = None
+            object.__setattr__(self, '_hash', None)
 
         try:
             replacement = self.post_new()
@@ -465,13 +465,11 @@ class RecordBase:
             if the class is non-frozen, this function will be overridden
         """
         if self._hash is None:
-            self._hash = hash(tuple(self.to_dict().values()))
+            object.__setattr__(self, '_hash', hash(tuple(self.to_dict().values())))
         return self._hash
 
     def __setattr__(self, a, value):
         # note: if the class is non-frozen, this function will be overridden
-        if a in RecordBase.__slots__:
-            return super().__setattr__(a, value)
         raise TypeError(f'{type(self).__qualname__} is frozen')
 
     def __delattr__(self, a):
@@ -489,7 +487,7 @@ class RecordBase:
             object.__setattr__(self, k, v)
         if self._frozen:
             # a pickled hash is meaningless in other processes, since string hashes are randomized
-            self._hash = None
+            object.__setattr__(self, '_hash', None)
 
     @parser
     @SelectableFactory
-- 
2.43.0

