From c9ded9a94013fd628942139d8a001bd65b367e44 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 01/28] fix: emit empty texts, and correct separators, when a
 text has no words

Text.emit_many dropped texts with zero words and asked for one separator
too few for each, so emit raised IndexError and other texts could get the
default separator.
---
 src/fauxdoc/emitters/text.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 3c33bc8..fc121ff 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -219,7 +219,8 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
             nums: List[int] = []
             for length in numwords.items:
                 n_uw = self._emitters['word'].num_unique_values ** length
-                n_us = self._emitters['sep'].num_unique_values ** (length - 1)
+                n_us = self._emitters['sep'].num_unique_values ** max(
+                    length - 1, 0)
                 nums.append(n_uw * n_us)
             self._num_unique_values = sum(nums)
 
@@ -287,9 +288,12 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         lengths = self._emitters['numwords'](number)
         total_words = sum(lengths)
         words = self._get_words_iterator(total_words)
-        seps = iter(self._emitters['sep'](total_words - number))
+        total_seps = sum(length - 1 for length in lengths if length)
+        seps = iter(self._emitters['sep'](total_seps))
         for length in lengths:
-            if length:
+            if not length:
+                texts.append('')
+            else:
                 render = [next(words)]
                 for _ in range(1, length):
                     render.extend([next(seps, ' '), next(words)])
-- 
2.43.0


From 1ba117fe432646402d130e8c54395d222cd55489 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:48:38 +0000
Subject: [PATCH 02/28] fix: let cycling emitters recover from iterator errors
 and dried-up factories

The cycling iterator was a generator: an exception from the user's
iterator ended it for good, so later calls raised StopIteration or gave
short lists. A factory that began to return empty iterators looped for
ever.
---
 src/fauxdoc/emitters/fixed.py | 42 ++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/fixed.py b/src/fauxdoc/emitters/fixed.py
index 28cbcd6..28b61c1 100644
--- a/src/fauxdoc/emitters/fixed.py
+++ b/src/fauxdoc/emitters/fixed.py
@@ -55,6 +55,44 @@ class Static(ItemsMixin[T], Emitter[T]):
         return [self._value] * number
 
 
+class _InfiniteIterator(Iterator[T]):
+    """Iterator that starts a new pass each time one is exhausted.
+
+    An exception raised by the factory or by one of its iterators is
+    passed on to the caller, who may continue iterating afterward. (If
+    this were a generator, the exception would finish it for good.)
+    """
+
+    def __init__(self, factory: Callable[[], Iterator[T]]) -> None:
+        """Inits an _InfiniteIterator.
+
+        Args:
+            factory: A callable that takes no args and returns an
+                iterator.
+        """
+        self._factory = factory
+        self._current: Iterator[T] = iter(())
+
+    def __next__(self) -> T:
+        """Returns the next item, starting a new pass if needed."""
+        try:
+            return next(self._current)
+        except StopIteration:
+            pass
+        self._current = iter(())
+        try:
+            self._current = iter(self._factory())
+        except StopIteration as e:
+            raise RuntimeError('iterator factory raised StopIteration') from e
+        try:
+            return next(self._current)
+        except StopIteration:
+            raise ValueError(
+                'The provided iterator factory returned an empty iterator. '
+                'There are no values to emit.'
+            ) from None
+
+
 class Iterative(Emitter[T]):
     """Class for emitting values from an iterator.
 
@@ -140,9 +178,7 @@ class Iterative(Emitter[T]):
             factory: A callable that takes no args and returns an
                 iterator.
         """
-        while True:
-            for item in factory():
-                yield item
+        return _InfiniteIterator(factory)
 
     @property
     def iterator_factory(self) -> Callable[[], Iterator[T]]:
-- 
2.43.0


From c67fdf70664fd7bd6f1f3bed30f517735674554d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 03/28] fix: apply reset_after_call when a call fails too

---
 src/fauxdoc/emitters/fixed.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/fauxdoc/emitters/fixed.py b/src/fauxdoc/emitters/fixed.py
index 28b61c1..c8aa275 100644
--- a/src/fauxdoc/emitters/fixed.py
+++ b/src/fauxdoc/emitters/fixed.py
@@ -203,9 +203,11 @@ class Iterative(Emitter[T]):
 
     def emit(self) -> T:
         """Returns one emitted value."""
-        ret_value = next(self._iterator)
-        if self.reset_after_call:
-            self.reset()
+        try:
+            ret_value = next(self._iterator)
+        finally:
+            if self.reset_after_call:
+                self.reset()
         return ret_value
 
     def emit_many(self, number: int) -> List[T]:
@@ -214,9 +216,11 @@ class Iterative(Emitter[T]):
         Args:
             number: See superclass.
         """
-        ret_value = list(itertools.islice(self._iterator, 0, number))
-        if self.reset_after_call:
-            self.reset()
+        try:
+            ret_value = list(itertools.islice(self._iterator, 0, number))
+        finally:
+            if self.reset_after_call:
+                self.reset()
         return ret_value
 
 
@@ -338,9 +342,11 @@ class Sequential(ItemsMixin[T], Emitter[T]):
 
     def emit(self) -> T:
         """Returns one emitted value."""
-        ret_value = next(self._iterator)
-        if self.reset_after_call:
-            self.reset()
+        try:
+            ret_value = next(self._iterator)
+        finally:
+            if self.reset_after_call:
+                self.reset()
         return ret_value
 
     def emit_many(self, number: int) -> List[T]:
@@ -349,7 +355,9 @@ class Sequential(ItemsMixin[T], Emitter[T]):
         Args:
             number: See superclass (Emitter).
         """
-        ret_value = list(itertools.islice(self._iterator, 0, number))
-        if self.reset_after_call:
-            self.reset()
+        try:
+            ret_value = list(itertools.islice(self._iterator, 0, number))
+        finally:
+            if self.reset_after_call:
+                self.reset()
         return ret_value
-- 
2.43.0


From de6bb72f368800ea8359b9e989c165b115800ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 04/28] fix: do not install a wrapper function that was
 rejected

---
 src/fauxdoc/emitters/wrappers.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/fauxdoc/emitters/wrappers.py b/src/fauxdoc/emitters/wrappers.py
index 4db4d38..5984c5f 100644
--- a/src/fauxdoc/emitters/wrappers.py
+++ b/src/fauxdoc/emitters/wrappers.py
@@ -282,10 +282,8 @@ class WrapOne(Generic[SourceT, OutputT], RandomWithChildrenMixin,
         """
         try:
             wrapper.try_mock_call(self._emitters['source']())
-        except TypeError:
-            raise
-        finally:
             self._wrapper = wrapper
+        finally:
             self.reset()
 
     def emit(self) -> OutputT:
@@ -389,10 +387,8 @@ class WrapMany(Generic[SourceT, OutputT], RandomWithChildrenMixin,
         kwargs = {k: v() for k, v in self._emitters.items()}
         try:
             wrapper.try_mock_call(**kwargs)
-        except TypeError:
-            raise
-        finally:
             self._wrapper = wrapper
+        finally:
             self.reset()
 
     def emit(self) -> OutputT:
-- 
2.43.0


From 4fd54df2def9c7f902c9dc575386d9a057193023 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 05/28] fix: do not hide AttributeErrors raised inside group
 methods

---
 src/fauxdoc/group.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index 05feb02..5b8c9d1 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -39,9 +39,8 @@ class GroupMixin(Generic[T], ABC):
     def do_method(self, method_name: str, *args: Any, **kwargs: Any) -> None:
         """Runs a method of all objects in the group.
 
-        If the method doesn't exist on any of the member objects, the
-        AttributeError is ignored, and that object is skipped. Return
-        values are ignored.
+        If the method doesn't exist on any of the member objects, that
+        object is skipped. Return values are ignored.
 
         Args:
             method_name: The name of the method to run.
@@ -49,11 +48,9 @@ class GroupMixin(Generic[T], ABC):
             **kwargs: Keyword args to pass to the method.
         """
         for obj in self.objects_iterable:
-            if obj is not None:
-                try:
-                    getattr(obj, method_name)(*args, **kwargs)
-                except AttributeError:
-                    pass
+            method = getattr(obj, method_name, None)
+            if obj is not None and method is not None:
+                method(*args, **kwargs)
 
 
 class ObjectGroup(GroupMixin[T], UserList[T]):
-- 
2.43.0


From e2955782edb73dbccda43d10208672ce6c850da2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 06/28] fix: survive a random draw of exactly 0.0 in
 weighted_shuffle

---
 src/fauxdoc/mathtools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 7291ee2..567c64d 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -129,7 +129,9 @@ def weighted_shuffle(items: Sequence[T],
         # slower for lower values of k, but the lack of iteration makes
         # it scale very well for higher values of k. Zipping the scores
         # and items is faster than tracking positions.
-        scores = zip((math.log(rng.random()) / w for w in weights), items)
+        # (The RNG may produce 0.0, which has no log.)
+        scores = zip((math.log(rng.random() or 2 ** -53) / w
+                      for w in weights), items)
 
         # Note: to pick the highest scoring k items, reverse sorting
         # the whole list is faster than using the `heapq.nlargest`
-- 
2.43.0


From d0fe07e3f390a1c0b18db9c4afe9ba66fa7741bd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 07/28] fix: support weights of 0 without replacement

---
 src/fauxdoc/mathtools.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 567c64d..072c408 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -130,8 +130,10 @@ def weighted_shuffle(items: Sequence[T],
         # it scale very well for higher values of k. Zipping the scores
         # and items is faster than tracking positions.
         # (The RNG may produce 0.0, which has no log.)
-        scores = zip((math.log(rng.random() or 2 ** -53) / w
-                      for w in weights), items)
+        # An item with a weight of 0 scores below all the others, so it
+        # is only picked when nothing else is left.
+        scores = zip((math.log(rng.random() or 2 ** -53) / w if w
+                      else -math.inf for w in weights), items)
 
         # Note: to pick the highest scoring k items, reverse sorting
         # the whole list is faster than using the `heapq.nlargest`
@@ -152,6 +154,8 @@ def weighted_shuffle(items: Sequence[T],
 
     # The k threshold where the `high_k` method becomes faster than the
     # `low_k` is k =~ 42% of the total number of items.
-    if number <= nitems * 0.42:
+    # And, the `low_k` method cannot pick items that have a weight of 0.
+    if (number <= nitems * 0.42
+            and number <= sum(1 for w in weights if w)):
         return _faster_for_low_k(items, weights, rng, number)
     return _faster_for_high_k(items, weights, rng, number)
-- 
2.43.0


From b8242e11b4d9e025622be48d121392728fdcc697 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 08/28] fix: count unique values when items are not hashable

---
 src/fauxdoc/emitters/choice.py |  4 ++--
 src/fauxdoc/mixins.py          | 20 ++++++++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/fauxdoc/emitters/choice.py b/src/fauxdoc/emitters/choice.py
index 3807891..8308654 100644
--- a/src/fauxdoc/emitters/choice.py
+++ b/src/fauxdoc/emitters/choice.py
@@ -4,7 +4,7 @@ from typing import Any, Optional, List, Sequence
 
 from fauxdoc.emitter import Emitter
 from fauxdoc.mathtools import clamp, gaussian, poisson, weighted_shuffle
-from fauxdoc.mixins import RandomMixin, ItemsMixin
+from fauxdoc.mixins import RandomMixin, ItemsMixin, count_unique_values
 from fauxdoc.typing import T
 
 
@@ -290,7 +290,7 @@ class Choice(RandomMixin, ItemsMixin[T], Emitter[T]):
         selected.
         """
         if not self._replace:
-            return len(set(self._shuffled[self._shuffled_index:]))
+            return count_unique_values(self._shuffled[self._shuffled_index:])
         return super().num_unique_values
 
     @property
diff --git a/src/fauxdoc/mixins.py b/src/fauxdoc/mixins.py
index c185ff4..cf0fbc0 100644
--- a/src/fauxdoc/mixins.py
+++ b/src/fauxdoc/mixins.py
@@ -1,11 +1,27 @@
 """Contains mixin classes."""
 import random
-from typing import Any, Generic, Sequence
+from typing import Any, Generic, List, Sequence
 
 from fauxdoc.group import ObjectMap
 from fauxdoc.typing import EmitterLike, T
 
 
+def count_unique_values(values: Sequence[Any]) -> int:
+    """Counts the unique values in a sequence, hashable or not.
+
+    Args:
+        values: The sequence of values to count.
+    """
+    try:
+        return len(set(values))
+    except TypeError:
+        unique: List[Any] = []
+        for value in values:
+            if value not in unique:
+                unique.append(value)
+        return len(unique)
+
+
 class RandomMixin:
     """Mixin class for defining components that need RNG.
 
@@ -92,7 +108,7 @@ class ItemsMixin(Generic[T]):
     @property
     def num_unique_values(self) -> int:
         """Returns an int, the number of unique values emittable."""
-        return len(set(self._items))
+        return count_unique_values(self._items)
 
 
 class ChildrenMixin:
-- 
2.43.0


From 0823a32f7c3f907cd4d640d4dfbe10efe5c0d83d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 09/28] fix: do not store a seed that the RNG rejects

---
 src/fauxdoc/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/mixins.py b/src/fauxdoc/mixins.py
index cf0fbc0..9101a72 100644
--- a/src/fauxdoc/mixins.py
+++ b/src/fauxdoc/mixins.py
@@ -69,8 +69,8 @@ class RandomMixin:
         Args:
             seed: Any valid seed value you'd provide to random.seed.
         """
-        self.rng_seed = rng_seed
         self.rng.seed(rng_seed)
+        self.rng_seed = rng_seed
         supr = super()
         if hasattr(supr, 'seed'):
             supr.seed(rng_seed)
-- 
2.43.0


From 6f313601b77d4ab0aeec557395e19486e4242183 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:49:04 +0000
Subject: [PATCH 10/28] fix: do not use up source values, or keep a bad action,
 in BasedOnFields

Setting the action called the source fields to try it, so the values they
emitted then were missing from the data (e.g. item_id in the README
example did not start at 1). And an action that was rejected stayed set.
---
 src/fauxdoc/emitters/fromfields.py | 39 +++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/fauxdoc/emitters/fromfields.py b/src/fauxdoc/emitters/fromfields.py
index db0d82f..8a2a2dd 100644
--- a/src/fauxdoc/emitters/fromfields.py
+++ b/src/fauxdoc/emitters/fromfields.py
@@ -1,6 +1,6 @@
 """Contains emitters that use Field data to generate output."""
 from typing import (
-    Any, Callable, Generic, List, Optional, Sequence, Union
+    Any, Callable, Generic, List, Mapping, Optional, Sequence, Union
 )
 
 from fauxdoc.group import ObjectGroup
@@ -250,20 +250,37 @@ class BasedOnFields(Generic[SourceT, OutputT], RandomMixin, Emitter[OutputT]):
         Args:
             action: See the 'action' attribute.
         """
-        self._action = action
-        if len(self.source) == 1:
-            args = [self.source[0]()]
-            kwargs = {}
-        else:
-            args = []
-            kwargs = {field.name: field() for field in self.source}
+        # The values already emitted are what we use to try the action.
+        # Calling the source fields here instead would use up values
+        # that are meant for your data.
+        values = {field.name: field.previous for field in self.source}
         try:
-            self._action.try_mock_call(*args, **kwargs)
-        except TypeError:
-            raise
+            try:
+                self._try_action(action, values)
+            except TypeError:
+                no_value_yet = None in values.values()
+                if action.signature is not None and no_value_yet:
+                    # The action is wrong no matter what the values are,
+                    # but example values make the error informative.
+                    self._try_action(action, {
+                        field.name: field() if field.previous is None
+                        else field.previous for field in self.source
+                    })
+                if action.signature is not None or not no_value_yet:
+                    raise
+            self._action = action
         finally:
             self.reset()
 
+    def _try_action(self,
+                    action: BoundWrapper[FieldReturn[SourceT], OutputT],
+                    values: Mapping[str, Any]) -> None:
+        """Tries calling an action with the given source values."""
+        if len(self.source) == 1:
+            action.try_mock_call(*values.values())
+        else:
+            action.try_mock_call(**values)
+
     def reset_source(self) -> None:
         """Calls `reset` on all source fields.
 
-- 
2.43.0


From 430d8d5e2aaf21372e7ce76443b296f16e81594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 11/28] fix: any repeat emitter that only emits None makes a
 field single-valued

---
 src/fauxdoc/profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/profile.py b/src/fauxdoc/profile.py
index 42f11e0..ed95a0e 100644
--- a/src/fauxdoc/profile.py
+++ b/src/fauxdoc/profile.py
@@ -135,7 +135,8 @@ class Field(RandomWithChildrenMixin, Generic[T]):
     def multi_valued(self) -> bool:
         """See the 'multi_valued' attribute."""
         if hasattr(self.repeat_emitter, 'items'):
-            return bool(self.repeat_emitter.items != [None])
+            items = self.repeat_emitter.items
+            return not items or any(item is not None for item in items)
         return True
 
     @property
-- 
2.43.0


From 2b1c2b2374ed03307652ec869e2e079be3b34e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:21 +0000
Subject: [PATCH 12/28] fix: count the unique values of words and texts from
 their current parts

---
 src/fauxdoc/emitters/text.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index fc121ff..7506b40 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -127,6 +127,9 @@ class Word(RandomWithChildrenMixin, Emitter[str]):
     @property
     def num_unique_values(self) -> Optional[int]:
         """Returns the max number of unique values this can emit."""
+        # The child emitters may have changed since this was last
+        # calculated.
+        self._update_num_unique_vals()
         return self._num_unique_values
 
     def emit(self) -> str:
@@ -227,6 +230,9 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
     @property
     def num_unique_values(self) -> Optional[int]:
         """Returns the max number of unique values this can produce."""
+        # The child emitters may have changed since this was last
+        # calculated.
+        self._update_num_unique_vals()
         return self._num_unique_values
 
     def reset(self) -> None:
-- 
2.43.0


From 6e4c1cb69611f503e4f0d32a581cdf56e2e029ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:33 +0000
Subject: [PATCH 13/28] fix: do not hide AttributeErrors raised while seeding
 an emitter with children

---
 src/fauxdoc/mixins.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/fauxdoc/mixins.py b/src/fauxdoc/mixins.py
index 9101a72..f8a5b4f 100644
--- a/src/fauxdoc/mixins.py
+++ b/src/fauxdoc/mixins.py
@@ -170,7 +170,4 @@ class RandomWithChildrenMixin(RandomMixin, ChildrenMixin):
     def seed(self, rng_seed: Any) -> None:
         """Seeds RNG for this emitter and all children."""
         self._emitters.do_method('seed', rng_seed)
-        try:
-            super().seed(rng_seed)
-        except AttributeError:
-            pass
+        super().seed(rng_seed)
-- 
2.43.0


From c5749ff5ed906e87bd496f6f36febec8c64116a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 14/28] fix: use a given repeat, gate or separator emitter even
 if it is falsy

---
 src/fauxdoc/emitters/text.py | 2 +-
 src/fauxdoc/profile.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 7506b40..d2c63bf 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -193,7 +193,7 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         super().__init__(children={
             'numwords': numwords_emitter,
             'word': word_emitter,
-            'sep': sep_emitter or Static(' ')
+            'sep': Static(' ') if sep_emitter is None else sep_emitter
         }, rng_seed=rng_seed)
         self._update_num_unique_vals()
 
diff --git a/src/fauxdoc/profile.py b/src/fauxdoc/profile.py
index ed95a0e..1aa5e36 100644
--- a/src/fauxdoc/profile.py
+++ b/src/fauxdoc/profile.py
@@ -127,8 +127,8 @@ class Field(RandomWithChildrenMixin, Generic[T]):
         self.hide = hide
         super().__init__(children={
             'emitter': emitter,
-            'repeat': repeat or Static(None),
-            'gate': gate or Static(True)
+            'repeat': Static(None) if repeat is None else repeat,
+            'gate': Static(True) if gate is None else gate
         }, rng_seed=rng_seed)
 
     @property
-- 
2.43.0


From da5802b841d5b0bfbb9390dc1c3a3a31e13fb05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 15/28] fix: keep a schema's fields when set_fields is given
 something else

---
 src/fauxdoc/profile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/profile.py b/src/fauxdoc/profile.py
index 1aa5e36..8fe89df 100644
--- a/src/fauxdoc/profile.py
+++ b/src/fauxdoc/profile.py
@@ -242,8 +242,10 @@ class Schema:
             *fields: The Field instances to add. Note this is a star
                 argument, so provide your fields as args.
         """
-        self.fields: ObjectMap[FieldLike[Any]] = ObjectMap({})
-        self.add_fields(*fields)
+        # Nothing is set if one of these turns out not to be a field.
+        self.fields: ObjectMap[FieldLike[Any]] = ObjectMap(
+            {field.name: field for field in fields}
+        )
 
     def add_fields(self, *fields: FieldLike[Any]) -> None:
         """Adds schema fields, in the order provided.
-- 
2.43.0


From 8d3b9153d3b18ea695b61db548ced7951b4c615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 16/28] fix: reject weights that are not numbers before
 changing anything

---
 src/fauxdoc/emitters/choice.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fauxdoc/emitters/choice.py b/src/fauxdoc/emitters/choice.py
index 8308654..b4220a4 100644
--- a/src/fauxdoc/emitters/choice.py
+++ b/src/fauxdoc/emitters/choice.py
@@ -143,6 +143,11 @@ class Choice(RandomMixin, ItemsMixin[T], Emitter[T]):
                     f"Mismatched number of {noun_phr} ({nitems}) to choice "
                     f"{v_phr} ({nweights}). These amounts must match."
                 )
+            for weight in weights_to_set:
+                # Anything that is not a number (or, e.g., a Decimal)
+                # could only fail when it is time to make a choice. This
+                # raises a TypeError before anything is changed.
+                weight + 0.0  # pylint: disable=pointless-statement
             if weights_are_cumulative:
                 cum_weights = tuple(weights_to_set)
                 de_cum_weights = []
-- 
2.43.0


From 76d75ee05313aff0ad67d63e96ec12275a0608e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 17/28] fix: let Poisson distributions have more than 170 items

---
 src/fauxdoc/mathtools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 072c408..a6674a0 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -19,7 +19,12 @@ def poisson(x: int, mu: float = 1) -> float:
         A float value representing a probability that the given x value
         might occur.
     """
-    return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+    try:
+        return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+    except OverflowError:
+        # Parts of this are too large for a float if x or mu is large
+        # (e.g., x > 170), although the result is not.
+        return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))
 
 
 def gaussian(x: float, mu: float = 0, sigma: float = 1) -> float:
-- 
2.43.0


From bcff6382beddee6baef168a30ee28847c5513fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 18/28] fix: let slices, sums and copies of an ObjectGroup have
 its members

---
 src/fauxdoc/group.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index 5b8c9d1..7702aad 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -1,6 +1,7 @@
 """Contains classes for grouping and operating on groups of objects."""
 from abc import ABC, abstractmethod
-from typing import Any, Generic, Iterable, Mapping
+from copy import copy
+from typing import Any, Generic, Iterable, List, Mapping
 
 from fauxdoc.typing import OrderedDict, T, UserList
 
@@ -75,6 +76,39 @@ class ObjectGroup(GroupMixin[T], UserList[T]):
         """
         super().__init__(objects)
 
+    # UserList makes new lists by calling the class with one argument, a
+    # list -- which is not how an ObjectGroup is made.
+
+    def _with_objects(self, objects: List[T]) -> 'ObjectGroup[T]':
+        """Returns a copy of this group that has the given objects."""
+        group = copy(self)
+        group.data = objects
+        return group
+
+    def __getitem__(self, i: Any) -> Any:
+        """Gets one object, or a group with a slice of the objects."""
+        if isinstance(i, slice):
+            return self._with_objects(self.data[i])
+        return self.data[i]
+
+    def __add__(self, other: Iterable[T]) -> 'ObjectGroup[T]':
+        """Returns a group with other objects after the ones in this."""
+        return self._with_objects(self.data + list(other))
+
+    def __radd__(self, other: Iterable[T]) -> 'ObjectGroup[T]':
+        """Returns a group with other objects before the ones in this."""
+        return self._with_objects(list(other) + self.data)
+
+    def __mul__(self, n: int) -> 'ObjectGroup[T]':
+        """Returns a group that has the objects in this n times."""
+        return self._with_objects(self.data * n)
+
+    __rmul__ = __mul__
+
+    def copy(self) -> 'ObjectGroup[T]':
+        """Returns a copy of this group."""
+        return self._with_objects(list(self.data))
+
     @property
     def objects_iterable(self) -> Iterable[T]:
         """Iterates through the objects in this group."""
-- 
2.43.0


From e694ce0c45e665ab12888d8ff96b38db3bc1a846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 19/28] fix: let ObjectMaps be copied

---
 src/fauxdoc/group.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index 7702aad..beb0b54 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -1,7 +1,7 @@
 """Contains classes for grouping and operating on groups of objects."""
 from abc import ABC, abstractmethod
 from copy import copy
-from typing import Any, Generic, Iterable, List, Mapping
+from typing import Any, Generic, Iterable, List, Mapping, Optional
 
 from fauxdoc.typing import OrderedDict, T, UserList
 
@@ -127,14 +127,16 @@ class ObjectMap(GroupMixin[T], OrderedDict[str, T]):
     skip them.
     """
 
-    def __init__(self, objects: Mapping[str, T]) -> None:
+    def __init__(self, objects: Optional[Mapping[str, T]] = None) -> None:
         """Inits an ObjectMap with the given objects.
 
         Args:
-            objects: Your initial dict that maps keys to objects in
-                this group.
+            objects: (Optional.) Your initial dict that maps keys to
+                objects in this group. Default is None, for an empty
+                group, which is what copying an OrderedDict starts
+                with.
         """
-        super().__init__(objects)
+        super().__init__({} if objects is None else objects)
 
     @property
     def objects_iterable(self) -> Iterable[T]:
-- 
2.43.0


From 6acbc3354d0dc26def9b7da0d990489ce8722d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 20/28] fix: make ranges that stop before they start empty

---
 src/fauxdoc/dtrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index b196d0b..0473fa6 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -354,4 +354,5 @@ def dtrange(start: Union[DT, str], stop: Union[DT, str], step: float = 1,
     else:
         length, rem = _value_to_index(stop_obj, start_obj, step_td)
     length += 1 if rem else 0
-    return DateOrTimeRange(start_obj, length, step_td)
+    # As with `range`, a stop that is behind the start makes it empty.
+    return DateOrTimeRange(start_obj, max(length, 0), step_td)
-- 
2.43.0


From 5940520ba7b9532cd48174cf803118bd3cff0531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 21/28] fix: let 24-hour time ranges have a negative step

---
 src/fauxdoc/dtrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 0473fa6..6f513ac 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -349,7 +349,8 @@ def dtrange(start: Union[DT, str], stop: Union[DT, str], step: float = 1,
         # 24-hour clock as a time range. E.g., midnight to midnight is
         # a 24-hour range instead of an empty range.
         start_refdate = datetime.combine(date(99, 1, 1), start_obj)
-        stop_refdate = start_refdate + timedelta(days=1)
+        one_day = timedelta(days=1 if step_td > timedelta(0) else -1)
+        stop_refdate = start_refdate + one_day
         length, rem = _value_to_index(stop_refdate, start_refdate, step_td)
     else:
         length, rem = _value_to_index(stop_obj, start_obj, step_td)
-- 
2.43.0


From c96c5bfa3625d1dba0a9cbb58aef3f1ce1d34df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 22/28] fix: values that cannot be compared with those of a
 range are not in it

---
 src/fauxdoc/dtrange.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 6f513ac..8d50a21 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -240,9 +240,15 @@ class DateOrTimeRange(Sequence[DT]):
                 index value.
         """
         if isinstance(value, type(self.start)):
-            index, rem = _value_to_index(value, self._start, self._step)
-            if not rem and index in self._index_range[start:stop]:
-                return index
+            try:
+                index, rem = _value_to_index(value, self._start, self._step)
+            except TypeError:
+                # E.g.: a datetime is a date, but is never in a range of
+                # dates. Nor are values with a time zone in one without.
+                pass
+            else:
+                if not rem and index in self._index_range[start:stop]:
+                    return index
         raise ValueError(f'{value} is not in range')
 
     def __contains__(self, value: object) -> bool:
-- 
2.43.0


From e39cc954a6c75c83e417abc67f23661eefa8b5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 23/28] fix: let time ranges keep their time zone

---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 8d50a21..84437a3 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -16,7 +16,7 @@ def _index_to_value(index: int, start: DT, step: timedelta) -> DT:
         # the math, and returning the time.
         ref_date = date(99, 1, 1)
         ref_dt = datetime.combine(ref_date, start)
-        return (ref_dt + delta).time()
+        return (ref_dt + delta).timetz()
     return start + delta
 
 
-- 
2.43.0


From 8dac5817a4a09df067ede1e2ad3bc5782e69d783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 24/28] fix: let slices of ranges be empty or have only one
 value

---
 src/fauxdoc/dtrange.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 84437a3..3264387 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -179,8 +179,13 @@ class DateOrTimeRange(Sequence[DT]):
         """Returns the requested value or values from the range."""
         if isinstance(index, slice):
             slc = self._index_range[index]
-            start = _index_to_value(slc.start, self.start, self.step)
-            return type(self)(start, len(slc), self.step * slc.step)
+            if not slc:
+                # What would be its start might not be a valid value.
+                return type(self)(self.start, 0, self.step)
+            start = _index_to_value(slc[0], self.start, self.step)
+            # (Steps of a day or more are not valid in a time range.)
+            step = self.step * slc.step if len(slc) > 1 else self.step
+            return type(self)(start, len(slc), step)
         try:
             index_num = self._index_range[index]
         except IndexError:
-- 
2.43.0


From a6f990267473ee2840e1197405d6bb5df5c58a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 25/28] fix: let ranges be printed that end with the last
 possible value

---
 src/fauxdoc/dtrange.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 3264387..59863e1 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -200,7 +200,11 @@ class DateOrTimeRange(Sequence[DT]):
     def __repr__(self) -> str:
         """Returns the string representation of the range."""
         if not hasattr(self, '_str_repr'):
-            stop = str(self.stop)
+            try:
+                stop = str(self.stop)
+            except OverflowError:
+                # The last value is the last that can be represented.
+                stop = f"after {self[-1]}"
             if isinstance(self.start, time):
                 days = (self.step * len(self)).days
                 if days > 0:
-- 
2.43.0


From c8eb2fb10c782a09d80fe526c0b96101b673f4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:48 +0000
Subject: [PATCH 26/28] fix: values told in another time zone in ranges across
 a clock change

Steps of a range of datetimes are counted by the clock of the time zone
its start is in. Where that clock is set forward or back, values and
stops told in another time zone were an hour off: values of the range
were not found in it, and a range could include its stop.
---
 src/fauxdoc/dtrange.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 59863e1..ae92f1c 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -48,6 +48,15 @@ def _value_to_index(value: DT, start: DT,
     else:
         valdt = value
         startdt = start
+        if isinstance(start, datetime) and value.tzinfo is not start.tzinfo:
+            if value.utcoffset() is not None is not start.utcoffset():
+                # Steps are counted by the clock of the time zone that
+                # `start` is in, which is not always as far from other
+                # clocks as it is at `start`.
+                try:
+                    valdt = value.astimezone(start.tzinfo)
+                except OverflowError:
+                    pass
     return divmod(valdt - startdt, step)
 
 
-- 
2.43.0


From a84c01d066e256f7f3720a0e66e387ddd406edbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:48 +0000
Subject: [PATCH 27/28] fix: times that no value of a range equals were found
 in it

Times in different time zones are only equal if they are the same moment
of the same day. A time in another time zone was found in a range that
had the moment on the other side of midnight.
---
 src/fauxdoc/dtrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index ae92f1c..6d0bf49 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -265,7 +265,8 @@ class DateOrTimeRange(Sequence[DT]):
                 # dates. Nor are values with a time zone in one without.
                 pass
             else:
-                if not rem and index in self._index_range[start:stop]:
+                if (not rem and index in self._index_range[start:stop]
+                        and self[index] == value):
                     return index
         raise ValueError(f'{value} is not in range')
 
-- 
2.43.0


From e9b1a7a7743fc5fc216fd3220f5a7e0bcd66d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:11 +0000
Subject: [PATCH 28/28] fix: plain dates were not found in ranges that start
 with a subclass

Values of a range that starts with an instance of a subclass of date or
datetime equal plain dates or datetimes, but were not found by them.
---
 src/fauxdoc/dtrange.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 6d0bf49..db35b9c 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -60,6 +60,14 @@ def _value_to_index(value: DT, start: DT,
     return divmod(valdt - startdt, step)
 
 
+def _is_like(value: object, start: DT) -> bool:
+    """True if `value` is a date, time, or datetime, as `start` is."""
+    for dtype in (datetime, date, time):
+        if isinstance(start, dtype):
+            return isinstance(value, dtype)
+    return False
+
+
 class DateOrTimeRange(Sequence[DT]):
     """Class for representing ranges of dates and/or times.
 
@@ -257,7 +265,7 @@ class DateOrTimeRange(Sequence[DT]):
             stop: (Optional.) Limit your search based on this stop
                 index value.
         """
-        if isinstance(value, type(self.start)):
+        if _is_like(value, self.start):
             try:
                 index, rem = _value_to_index(value, self._start, self._step)
             except TypeError:
@@ -272,7 +280,7 @@ class DateOrTimeRange(Sequence[DT]):
 
     def __contains__(self, value: object) -> bool:
         """Returns True if a value is in this range."""
-        if isinstance(value, type(self.start)):
+        if _is_like(value, self.start):
             try:
                 self.index(value)
             except ValueError:
-- 
2.43.0

